"""Group layer: points of the two prime-order curves, known through their discrete logarithms to the base G.

A point is represented by the pair of coordinate terms PX(m), PY(m) (m a number modulo the group order n; PX(0) = PY(0) = 0
stands for the identity).  Point addition, doubling, multiplication by a scalar and curve evaluation are replaced by their
contracts, which E01-E05 establish for the real code; everything above them is executed for real."""
import re
from . import term as T
from .term import Term
from .curves import CURVES
from .engine import Ptr, PIte, NULL, Mpz, Undef, Unsupported, Multi, PathEnd


def canon(m, c):
    return T.imod(m, c.n) if isinstance(m, Term) else m % c.n


def gite(k, a, b, c):
    """number k ? a : b modulo the order, as a polynomial"""
    if k is True:
        return canon(a, c)
    if k is False:
        return canon(b, c)
    a, b = T._unmod(a, c.n), T._unmod(b, c.n)
    try:
        d = T.modnorm(T.isub(a, b), c.n)
        if not d:
            return canon(a, c)
        if vanishes(k, d, c):
            return canon(b, c)
        if vanishes(T.bnot(k), d, c):
            return canon(a, c)
    except T.TooBig:
        pass
    i = T.ind(k)
    return T.imod(T.iadd(b, T.imul(i, T.isub(a, b))), c.n)


def vanishes(k, d, c):
    """the polynomial d (a dictionary) is 0 modulo the order wherever k holds"""
    if k.op == 'and':
        if any(vanishes(x, d, c) for x in k.args):
            return True
        # several variables are zero
        zero = {x.args[0] for x in k.args if x.op == 'ieq'}
        return bool(zero) and all(any(t in zero for t in m) for m in d)
    if k.op == 'or':
        return len(k.args) < 9 and all(vanishes(x, d, c) for x in k.args)
    if k.op == 'mz' and k.args[1] == c.n or k.op == 'ieq':
        p = T.modnorm(k.args[0], c.n)
        if len(p) != len(d) or p.keys() != d.keys():
            return False
        m = next(iter(p))
        r = d[m] * pow(p[m], -1, c.n) % c.n
        return all((d[x] - r * p[x]) % c.n == 0 for x in p)
    return False


def isdlx(m, cid):
    return isinstance(m, Term) and m.op == 'iuf' and m.args[0] == 'DLX' and m.args[2] == cid


def mkcoord(op, m, rest):
    cid = rest[0]
    c = CURVES[cid]
    m = canon(m, c)
    if not isinstance(m, Term) and m == 0:
        return 0
    if op == 'PX':
        if isdlx(m, cid):
            return m.args[1]
        k = T.imod(T.ineg(m), c.n)
        if isdlx(k, cid):
            return k.args[1]
    t = T.mk(op, (m, cid), 'I')
    t.lo, t.hi, t.aux = 0, c.p - 1, True
    return t


def negy(t, p):
    c = CURVES[t.args[1]]
    return mkcoord('PY', T.ineg(t.args[0]), (t.args[1],)) if c.p == p else None


def constlog(op, v, cid):
    """discrete logarithm of a constant coordinate (the generator's, or 0 for the identity)"""
    if v == 0:
        return 0
    c = CURVES[cid]
    if op == 'PX' and v == c.gx or op == 'PY' and v == c.gy:
        return 1
    if op == 'PY' and v == c.p - c.gy:
        return c.n - 1
    return None


_small = {}


def small(c, i):
    """i times the generator, for i below 2^16 (built one after the other)"""
    t = _small.setdefault(c.n, [None])
    g = c.mul(1)
    while len(t) <= i:
        t.append(c.add(t[-1], g))
    return t[i]


_x0log = {}


def x0range(c, lo, hi):
    """no multiple of the generator between lo and hi (identity aside) has x = 0 (baby steps, giant steps)"""
    r = _x0log.get((c.n, lo, hi))
    if r is None:
        y = pow(c.b, (c.p + 1) // 4, c.p)
        if y * y % c.p != c.b:
            r = True
        else:
            m = 1
            while m * m < hi - lo + 1:
                m *= 2
            baby = {small(c, i)[0]: i for i in range(1, m + 1)}
            r = True
            # a point k = lo + j*m + i of the range: (k - lo - j*m)*G is +-i*G or the identity
            for s in (y, c.p - y):
                q = c.add((0, s), c.mul(-lo))
                step = c.mul(-m)
                for j in range(m + 1):
                    if q is None or q[0] in baby:
                        r = False
                        break
                    q = c.add(q, step)
        _x0log[(c.n, lo, hi)] = r
    return r


def x0(lo, hi, cid):
    """one of the two points is the identity and the other has x = 0"""
    c = CURVES[cid]
    for u, v in ((lo, hi), (hi, lo)):
        if not isinstance(u, Term) and u == 0 and isinstance(v, Term):
            l, h = T.irange(v)
            if l is not None and h is not None and -c.n < l and h < c.n and h - l < 1 << 20 and x0range(c, l, h):
                return False
    for v in (lo, hi):
        if not isinstance(v, Term) and v != 0 and min(v, c.n - v) < 65536:
            if small(c, min(v, c.n - v))[0] != 0:
                return False
    return T.buf('X0', (lo, hi, cid))


def coordeq(a, b):
    if a.args[1] != b.args[1]:
        return T.mk('ieq', (T.mkpoly(T.padd(T.P(a), T.P(b), -1)),), 'B')
    cid = a.args[1]
    c = CURVES[cid]
    x, y = a.args[0], b.args[0]
    zx, zy = T.mz(x, c.n), T.mz(y, c.n)
    d, s = T.mz(T.isub(x, y), c.n), T.mz(T.iadd(x, y), c.n)
    lo, hi = (x, y) if not isinstance(x, Term) or isinstance(y, Term) and x.id < y.id else (y, x)
    if a.op == 'PX':
        # equal abscissas: equal or opposite points (or the identity, shown as 0, and a point with x = 0)
        odd = T.band(T.bxor(zx, zy), x0(lo, hi, cid))
        return T.bor(d, s, odd)
    # equal ordinates: equal points, or other points of the same ordinate (never opposite ones)
    return T.bor(d, T.band(T.bnot(s), T.bnot(zx), T.bnot(zy), T.buf('YEQ', (lo, hi, cid))))


def coordeqc(a, v):
    cid = a.args[1]
    c = CURVES[cid]
    k = constlog(a.op, v, cid)
    if k == 0:
        z = T.mz(a.args[0], c.n)
        if a.op == 'PY':
            return z
        return T.bor(z, x0(a.args[0], 0, cid))
    if k is not None:
        return coordeq(a, T.mk(a.op, (k, cid), 'I')) if True else None
    return None


def iitecoord(c, a, b):
    """ite of coordinates with a constant side"""
    for x, y, f in ((a, b, 0), (b, a, 1)):
        if isinstance(x, Term) and x.op in ('PX', 'PY') and not isinstance(y, Term):
            k = constlog(x.op, y, x.args[1])
            if k is None:
                if x.op == 'PY':
                    return None
                k = dlx(y, x.args[1])
            C = CURVES[x.args[1]]
            m = gite(c, x.args[0], k, C) if not f else gite(c, k, x.args[0], C)
            return mkcoord(x.op, m, x.args[1:])
    return None


def sgn(m, cid):
    """whether PY(m) is the principal square root"""
    c = CURVES[cid]
    if not isinstance(m, Term):
        P = c.mul(m)
        return pow(P[1], (c.p - 1) // 2, c.p) == 1
    d = T.P(T._unmod(m, c.n))
    lead = max(d, key=lambda k: T._mkey((k,)))
    if d[lead] % c.n > c.n // 2:
        return T.bnot(T.buf('SGN', (canon(T.ineg(m), c), cid)))
    return T.buf('SGN', (m, cid))


def dlx(x, cid):
    """discrete logarithm of the point evaluateP(x)"""
    c = CURVES[cid]
    return T.iuf('DLX', (x, cid), 1, c.n - 1)


# ------------------------------------------------------------------ concrete values
class Formal:
    """a number modulo n known as k + sum(coefficient * dlog(point))"""

    def __init__(self, c, P):
        self.c, self.P = c, P          # P: the point (None: identity)

    def __add__(self, o):
        if o.__class__ is int:
            o = Formal(self.c, self.c.mul(o))
        return Formal(self.c, self.c.add(self.P, o.P))
    __radd__ = __add__

    def __mul__(self, o):
        if o.__class__ is not int:
            from .solve import NoEval
            raise NoEval('product of discrete logarithms')
        return Formal(self.c, scal(self.c, o, self.P))
    __rmul__ = __mul__

    def __mod__(self, m):
        return self

    def __eq__(self, o):
        if o.__class__ is int and o == 0:
            return self.P is None
        return NotImplemented

    def __hash__(self):
        return hash(self.P)


def scal(c, k, P):
    k %= c.n
    R = None
    while k:
        if k & 1:
            R = c.add(R, P)
        P = c.add(P, P)
        k >>= 1
    return R


def point(c, m):
    return m.P if isinstance(m, Formal) else c.mul(m)


def evalp(c, x):
    x %= c.p
    y2 = (x ** 3 + c.a * x + c.b) % c.p
    y = pow(y2, (c.p + 1) // 4, c.p)
    return (x, y) if y * y % c.p == y2 else None


def functions():
    def cur(x):
        return CURVES[x.args[-1]]

    def px(i):
        def f(x, v):
            P = point(cur(x), v[0])
            return 0 if P is None else P[i]
        return f

    def sg(x, v):
        c = cur(x)
        P = point(c, v[1])
        return P is not None and pow(P[1], (c.p - 1) // 2, c.p) == 1

    def x0(x, v):
        c = cur(x)
        a, b = point(c, v[1]), point(c, v[2])
        return (a[0] if a else 0) == (b[0] if b else 0)

    def yeq(x, v):
        c = cur(x)
        a, b = point(c, v[1]), point(c, v[2])
        return a is not None and b is not None and a[1] == b[1]
    return {('fn', 'PX'): px(0), ('fn', 'PY'): px(1),
            ('fn', 'iuf', 'DLX'): lambda x, v: Formal(cur(x), evalp(cur(x), v[1])),
            ('fn', 'buf', 'QR'): lambda x, v: evalp(cur(x), v[1]) is not None,
            ('fn', 'buf', 'SGN'): sg, ('fn', 'buf', 'X0'): x0, ('fn', 'buf', 'YEQ'): yeq}


# ------------------------------------------------------------------ objects in memory
class Layout:
    pass


def setup(e, st):
    """find the layout of points and scalars from the objects the real constructors build"""
    e.glayout = {}
    for nm in ('symx_probe_secp', 'symx_probe_bn'):
        if nm in e.mod.funcs:
            s2 = e.fork(st)
            e.call_function(s2, nm, [])
    e.forks = 0


def probe(e, st, a):
    cid, fin, inf, size, curve, sc, scsize = a[:7]
    L = Layout()
    o, q = st.objs[fin.obj], st.objs[inf.obj]
    L.size = size
    L.img = []
    L.x = L.y = L.inf = L.curve = None
    for off, (sz, v) in sorted(o.cells.items()):
        r = off - fin.off
        if not 0 <= r < size:
            continue
        L.img.append((r, sz, v))
        if isinstance(v, Mpz) and v.val == 12345:
            L.x = r
        elif isinstance(v, Mpz) and v.val == 67890:
            L.y = r
        elif isinstance(v, Ptr) and v.obj == curve.obj:
            L.curve = r
        elif isinstance(v, int):
            w = q.cells.get(inf.off + r)
            if w is not None and w[0] == sz and {v, w[1]} == {0, 1}:
                L.inf, L.infsz, L.infval = r, sz, w[1]
    o = st.objs[sc.obj]
    L.sc = None
    for off, (sz, v) in sorted(o.cells.items()):
        if isinstance(v, Mpz) and v.val == 4321 and sc.off <= off < sc.off + scsize:
            L.sc = off - sc.off
    if None in (L.x, L.y, L.inf, L.curve, L.sc):
        raise Unsupported('unexpected layout of points')
    L.img = [(r, sz, v) for r, sz, v in L.img if r not in (L.x, L.y, L.inf, L.curve)]
    e.glayout[cid] = L


def recover(op, v, cid):
    """number m with coordinate op(m) = v"""
    if not isinstance(v, Term):
        k = constlog(op, v, cid)
        return dlx(v, cid) if k is None and op == 'PX' else k
    if v.op in ('PX', 'PY'):
        return v.args[0] if v.op == op and v.args[1] == cid else None
    if v.op == 'ite':
        a, b = recover(op, v.args[1], cid), recover(op, v.args[2], cid)
        if a is None or b is None:
            return None
        return gite(v.args[0], a, b, CURVES[cid])
    if v.op == 'imod':
        d = T.P(v.args[0])
        if all(c in (1, CURVES[cid].p - 1) for c in d.values()) and d:
            # merged signs and points: sum of ind * PY
            tot = 0
            conds = []
            for mono, c in d.items():
                ys = [x for x in mono if x.op == op]
                inds = [x.args[0] for x in mono if x.op == 'ind']
                if len(ys) != 1 or len(ys) + len(inds) != len(mono) or op == 'PX':
                    return None
                k = ys[0].args[0] if c == 1 else T.ineg(ys[0].args[0])
                g = T.band(*inds)
                for h in conds:
                    if T.band(g, h) is not False:
                        return None
                conds.append(g)
                tot = T.iadd(tot, T.imul(T.ind(g) if isinstance(g, Term) else 1, k))
            return canon(tot, CURVES[cid])
    if op == 'PX':
        return dlx(v, cid)
    return None


def consistent(e, st, x, m, cid):
    """the abscissa x belongs to PY(m)"""
    t = mkcoord('PX', m, (cid,))
    if t is x or (not isinstance(t, Term) and not isinstance(x, Term) and t == x):
        return True
    c = CURVES[cid]
    mx = recover('PX', x, cid)
    if mx is not None:
        if not isinstance(mx, Term) and not isinstance(m, Term):
            return (mx - m) % c.n == 0 or (mx + m) % c.n == 0
        if T.mz(T.isub(mx, m), c.n) is True or T.mz(T.iadd(mx, m), c.n) is True:
            return True
        g = T.bor(T.mz(T.isub(mx, m), c.n), T.mz(T.iadd(mx, m), c.n))
        g = e.simp(st, g)
        if g is True:
            return True
        r = e.solver.check(st.pc + [T.bnot(g)], timeout=20)
        return r[0] == 'unsat'
    return False


def dlog(e, st, p, cid):
    """number m of the point object at p"""
    L = e.glayout[cid]
    alts = e.resolve(st, p)
    r = None
    for c, q in reversed(alts):
        m = dlog1(e, st, q, cid, L)
        r = m if r is None else gite(c, m, r, CURVES[cid])
    return r


def dlog1(e, st, p, cid, L):
    c = CURVES[cid]
    f = e.load(st, e.padd(p, L.inf), L.infsz)
    if isinstance(f, Undef):
        raise PathEnd('error', 'use of an uninitialised point')
    if isinstance(f, int):
        f = f == L.infval
    else:
        f = T.eq(f, L.infval, 8 * L.infsz)
    f = e.simp(st, f)
    x, y = e.readmpz(st, e.padd(p, L.x)), e.readmpz(st, e.padd(p, L.y))
    if f is True:
        return 0
    m = recover('PY', y, cid)
    if m is None:
        raise Unsupported('point with unrelated coordinates')
    m = canon(m, c)
    if not consistent(e, st, x, m, cid):
        raise Unsupported('point with unrelated coordinates')
    if f is False:
        z = e.simp(st, T.mz(m, c.n))
        if z is not False and e.feasible(st, z) and e.solver.check(st.pc + ([z] if z is not True else []), timeout=20)[0] != 'unsat':
            raise Unsupported('identity not marked as such')
        return m
    z = T.mz(m, c.n)
    if same(e, st, f, z):
        return m
    return gite(f, 0, m, c)


def nnf(t):
    if not isinstance(t, Term):
        return t
    if t.op == 'not' and t.args[0].op == 'or':
        return T.band(*[nnf(T.bnot(x)) for x in t.args[0].args])
    if t.op == 'not' and t.args[0].op == 'and':
        return T.bor(*[nnf(T.bnot(x)) for x in t.args[0].args])
    if t.op == 'and':
        return T.band(*[nnf(x) for x in t.args])
    if t.op == 'or':
        return T.bor(*[nnf(x) for x in t.args])
    return t


def same(e, st, f, g):
    """f and g agree on the current path"""
    a, b = nnf(e.simp(st, f)), nnf(e.simp(st, g))
    if a is b:
        return True
    r = e.simp(st, T.biff(a, b))
    if r is True or r is False:
        return r
    return e.solver.check(st.pc + [T.bnot(r)], timeout=20)[0] == 'unsat'


def curveof(e, st, p, cid, m):
    """curve pointer of a point, given that m is not 0"""
    L = e.glayout[cid]
    z = T.mz(m, CURVES[cid].n)
    nz = T.bnot(z)
    r = None
    for c, q in reversed(e.resolve(st, p)):
        v = e.load(st, e.padd(q, L.curve), 8, True) if True else None
        if isinstance(v, Undef):
            raise PathEnd('error', 'use of an uninitialised point')
        if isinstance(v, int):
            v = e.toptr(v)
        if isinstance(v, Term):
            v = e.toptr(v)
        r = v if r is None else e.pite(c, v, r)
    alts = [(c, q) for c, q in e.palts(r) if e.simp(st, T.band(c, nz)) is not False]
    if not alts:
        return NULL
    if len(alts) == 1:
        return alts[0][1]
    x = alts[-1][1]
    for c, q in reversed(alts[:-1]):
        x = e.pite(c, q, x)
    return x


def touch(e, st, c, cond):
    """the real operation reads the point's curve object under cond"""
    for g, q in e.palts(c) if not isinstance(c, int) else []:
        if q.obj and st.objs.get(q.obj) is None:
            bad = e.simp(st, T.band(g, cond))
            if bad is not False and (bad is True or e.feasible(st, bad)):
                if bad is not True:
                    e.assume(st, bad)
                e.memerror(st, q.obj)


def write(e, st, p, cid, m, curve):
    L = e.glayout[cid]
    c = CURVES[cid]
    m = canon(m, c)
    q = e.resolve(st, p)[0][1]
    o = st.objs.get(q.obj)
    if o is None:
        e.memerror(st, q.obj)
    e.boundscheck(st, o, q.off, L.size, 'write')
    for r, sz, v in L.img:
        if isinstance(v, Mpz):
            e.writempz(st, e.padd(q, r), v.val)
        else:
            e.store(st, e.padd(q, r), sz, v)
    e.writempz(st, e.padd(q, L.x), mkcoord('PX', m, (cid,)))
    e.writempz(st, e.padd(q, L.y), mkcoord('PY', m, (cid,)))
    z = e.simp(st, T.mz(m, c.n))
    w = 8 * L.infsz
    if isinstance(z, Term):
        f = T.ite(z, L.infval, 1 - L.infval, w)
        curve = e.pite(z, NULL, curve)
    else:
        f = L.infval if z else 1 - L.infval
        if z:
            curve = NULL
    e.store(st, e.padd(q, L.inf), L.infsz, f)
    e.store(st, e.padd(q, L.curve), 8, curve)


PT = r'^ecc::Point<.*>::%s'
NAMES = {
    'add': PT % r'operator\+\((ecc::Point\S* const&)\) const$',
    'dbl': PT % r'pointDouble\(\) const$',
    'mul': PT % r'operator\*\((field::Field\S* const&)\) const$',
    'evalp': r'^ecc::Curve<.*>::evaluateP\(',
    'evaln': r'^ecc::Curve<.*>::evaluatePneg\(',
}
NOINLINE = [NAMES[k] for k in NAMES]


def curveid(dem):
    return 0 if 'secp256r1' in dem.split('::operator')[0] else 1


def install(e):
    want = e.opts.get('group', ('add', 'dbl', 'mul', 'evalp', 'evaln'))
    e.models['symx_probe'] = probe
    e.solver.functions = {**getattr(e.solver, 'functions', {}), **functions()}
    fns = {}

    def byname(kind, make):
        rx = re.compile(NAMES[kind])
        for nm, f in e.mod.funcs.items():
            if rx.search(f.dem) and not f.decl:
                e.models[nm] = make(0 if 'secp256r1' in f.dem else 1)
                fns[kind] = 1

    def mkadd(cid):
        n = CURVES[cid].n

        def add(e, st, a):
            r, p, q = a
            m1, m2 = dlog(e, st, p, cid), dlog(e, st, q, cid)
            z1 = e.simp(st, T.mz(m1, n))
            z2 = e.simp(st, T.mz(m2, n))
            if z1 is True and z2 is True:
                c = NULL
            elif z1 is True:
                c = curveof(e, st, q, cid, m2)
            else:
                c = curveof(e, st, p, cid, m1)
                if z1 is not False:
                    c = e.pite(z1, curveof(e, st, q, cid, m2), c)
            write(e, st, r, cid, T.iadd(m1, m2), c)
        return add

    def mkdbl(cid):
        def dbl(e, st, a):
            r, p = a
            m = dlog(e, st, p, cid)
            c = curveof(e, st, p, cid, m)
            touch(e, st, c, T.bnot(T.mz(m, CURVES[cid].n)))
            write(e, st, r, cid, T.imul(2, m), c)
        return dbl

    def mkmul(cid):
        n = CURVES[cid].n

        def mul(e, st, a):
            r, p, s = a
            m = dlog(e, st, p, cid)
            k = e.readmpz(st, e.padd(s, e.glayout[cid].sc))
            l, h = T.irange(k)
            if l is None or l < 0 or h is None or h >= n:
                if isinstance(k, Term) and e.feasible(st, T.bnot(T.band(T.ige(k, 0), T.ilt(k, n)))) or not isinstance(k, Term):
                    raise Unsupported('scalar outside [0, n)')
            c = curveof(e, st, p, cid, m)
            touch(e, st, c, T.band(T.bnot(T.mz(m, n)), T.ige(k, 2)))
            write(e, st, r, cid, T.imul(m, k), c)
        return mul

    def mkeval(cid, neg):
        c = CURVES[cid]

        def ev(e, st, a):
            r, cv, xp = a
            L = e.glayout[cid]
            x = T.imod(e.readmpz(st, e.padd(xp, L.sc)), c.p)
            if isinstance(cv, int):
                cv = e.toptr(cv)

            def res(m):
                def f(s):
                    write(e, s, r, cid, T.ineg(m) if neg else m, cv)
                return f

            def ident(s):
                write(e, s, r, cid, 0, NULL)
                k = s.misc.get('misses', 0) + 1
                s.misc['misses'] = k
            if not isinstance(x, Term):
                P = evalp(c, x)
                if P is None:
                    return ident(st)
                if x == c.gx:
                    return res(1 if sgn(1, cid) else -1)(st)
                return res(dlx(x, cid))(st)
            if x.op == 'PX':
                m = x.args[0]
                z = T.mz(m, c.n)
                s = sgn(m, cid)
                mm = gite(s, m, T.ineg(m), c) if isinstance(s, Term) else (m if s else canon(T.ineg(m), c))
                z = e.simp(st, z)
                if z is False:
                    return res(mm)(st)
                P = evalp(c, 0)
                raise Multi([(T.bnot(z), res(mm)), (z, res(dlx(0, cid)) if P else ident)])
            q = T.buf('QR', (x, cid))
            lim = e.opts.get('misses')
            if lim is not None and st.misc.get('misses', 0) >= lim:
                e.assume(st, q)
                e.assumptions['more than %d candidates in a search for a point' % lim] = \
                    e.assumptions.get('more than %d candidates in a search for a point' % lim, 0) + 1
                return res(dlx(x, cid))(st)
            raise Multi([(q, res(dlx(x, cid))), (T.bnot(q), ident)])
        return ev
    for k, f in (('add', mkadd), ('dbl', mkdbl), ('mul', mkmul), ('evalp', lambda c: mkeval(c, 0)), ('evaln', lambda c: mkeval(c, 1))):
        if k in want:
            byname(k, f)

    def sympoint(e, st, a):
        from .api import record
        from .gmp import pystr
        name = pystr(e, st, a[2])
        cid = a[3]
        c = CURVES[cid]
        d = T.ivar(name, 0, c.n - 1)
        record(st, name, d)
        e.writempz(st, a[0], mkcoord('PX', d, (cid,)))
        e.writempz(st, a[1], mkcoord('PY', d, (cid,)))
        return T.ite(T.mz(d, c.n), 1, 0, 32)
    e.models['symx_point'] = sympoint

    def pointobj(e, st, a):
        from .api import record
        from .gmp import pystr
        name = pystr(e, st, a[1])
        cid = a[2]
        d = T.ivar(name, 0, CURVES[cid].n - 1)
        record(st, name, d)
        write(e, st, a[0], cid, d, a[3])
    e.models['symx_pointobj'] = pointobj

    def symmul(e, st, a):
        from .gmp import pystr
        cid = a[4]
        c = CURVES[cid]
        d = T.ivar(pystr(e, st, a[3]), 0, c.n - 1)
        k = e.readmpz(st, a[2])
        m = canon(T.imul(k, d), c)
        e.writempz(st, a[0], mkcoord('PX', m, (cid,)))
        e.writempz(st, a[1], mkcoord('PY', m, (cid,)))
        z = T.mz(m, c.n)
        return (1 if z else 0) if not isinstance(z, Term) else T.ite(z, 1, 0, 32)
    e.models['symx_mul'] = symmul

    def symdlog(e, st, a):
        from .api import record
        from .gmp import pystr
        name = pystr(e, st, a[1])
        cid = a[4]
        x, y = e.readmpz(st, a[2]), e.readmpz(st, a[3])
        m = recover('PY', y, cid)
        if m is None or not consistent(e, st, x, m, cid):
            raise Unsupported('discrete logarithm of unrelated coordinates')
        m = canon(m, CURVES[cid])
        record(st, name, m)
        e.writempz(st, a[0], m)
    e.models['symx_dlog'] = symdlog

    def curveeq(t):
        """coordinates satisfy the curve equation"""
        if t.op != 'PY':
            return None
        m, cid = t.args
        c = CURVES[cid]
        x = mkcoord('PX', m, (cid,))
        f = T.isub(T.imul(t, t), T.iadd(T.iadd(T.imul(x, T.imul(x, x)), T.imul(c.a, x)), c.b))
        return [T.bor(T.mz(m, c.n), T.mz(f, c.p))]
    e.solver.axioms.append(curveeq)

    def xofeval(t):
        """abscissa of a point that is (plus or minus) an evaluated one on some paths"""
        if t.op != 'PX':
            return None
        m, cid = t.args
        n = CURVES[cid].n
        r = []
        for d in T.subterms([m]):
            if isdlx(d, cid):
                z = T.bor(T.mz(T.isub(m, d), n), T.mz(T.iadd(m, d), n))
                r.append(T.bor(T.bnot(z), T.ieq(t, d.args[1])))
        return r
    e.solver.axioms.append(xofeval)
