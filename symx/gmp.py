"""Models of the GMP functions the code under test calls (values are mathematical integers)."""
from . import term as T
from .term import Term
from .engine import Ptr, PIte, Undef, UNDEF, NULL, PathEnd, Unsupported, Multi, sx

W64 = 64


def isundef(v):
    return isinstance(v, Undef)


def sgnint(v, w):
    """signed integer value of a machine word"""
    if isundef(v):
        raise PathEnd('error', 'use of an uninitialised value')
    if isinstance(v, int):
        return sx(v, w)
    return T.sb2i(v, w)


def unsint(v, w):
    if isundef(v):
        raise PathEnd('error', 'use of an uninitialised value')
    if isinstance(v, int):
        return v
    return T.b2i(v, w)


def cstring(e, st, p):
    """concrete NUL-terminated string or list of byte terms"""
    out = []
    i = 0
    while True:
        b = e.load(st, e.padd(p, i), 1)
        if isinstance(b, Undef):
            raise PathEnd('error', 'read of uninitialised memory (string)')
        if isinstance(b, Term):
            z = e.simp(st, T.eq(b, 0, 8))
            if z is True:
                return out
            if z is not False and e.feasible(st, z):
                raise Unsupported('string with symbolic length')
            out.append(b)
        else:
            if b == 0:
                return out
            out.append(b)
        i += 1


def pystr(e, st, p):
    l = cstring(e, st, p)
    if not all(isinstance(b, int) for b in l):
        raise Unsupported('symbolic string')
    return bytes(l).decode('latin1')


def idivq(n, d, kind):
    """quotient of integers by a positive constant"""
    if d == 0:
        raise PathEnd('error', 'division by zero')
    if not isinstance(n, Term) and kind == 't':
        q = abs(n) // abs(d)
        return q if (n < 0) == (d < 0) else -q
    if d < 0:
        return T.ineg(idivq(n, -d, {'t': 't', 'f': 'c', 'c': 'f'}[kind]))
    if kind == 'f':
        return T.idiv(n, d)
    if kind == 'c':
        return T.ineg(T.idiv(T.ineg(n), d))
    l, h = T.irange(n)
    if l is not None and l >= 0:
        return T.idiv(n, d)
    return T.iite(T.ige0(n), T.idiv(n, d), T.ineg(T.idiv(T.ineg(n), d)))


def alts_const(v):
    """ite tree with integer leaves -> [(cond, int)]"""
    if not isinstance(v, Term):
        return [(True, v)]
    if v.op == 'ite' and v.sort == 'I':
        a, b = alts_const(v.args[1]), alts_const(v.args[2])
        if a is None or b is None:
            return None
        return [(T.band(v.args[0], c), x) for c, x in a] + [(T.band(T.bnot(v.args[0]), c), x) for c, x in b]
    if v.op == 'ind':
        return [(v.args[0], 1), (T.bnot(v.args[0]), 0)]
    return None


class Concretise(Exception):
    """the operation is only encodable for concrete values of this number"""

    def __init__(self, term, what):
        self.term, self.what = term, what


def known(st, d):
    return st.misc.get('conc', {}).get(d, d) if isinstance(d, Term) else d


def overconst(e, st, d, f):
    """f(const) -> value, over the constant alternatives of d"""
    d = known(st, d)
    if not isinstance(d, Term):
        return f(d)
    al = alts_const(d)
    if al is None:
        raise Concretise(d, 'symbolic modulus or divisor')
    r = None
    for c, x in al:
        c = e.simp(st, c)
        if c is False:
            continue
        y = f(x)
        r = y if r is None else T.iite(c, y, r)
    return r


def bitlen_alts(e, st, v, step=1, lim=6000):
    """[(cond, n)] with n = number of `step`-bit units of |v| (v >= 0)"""
    l, h = T.irange(v)
    if h is None or l is None:
        raise Unsupported('unbounded integer length')
    m = max(abs(l), abs(h))
    n = (m.bit_length() + step - 1) // step
    lowest = (l.bit_length() + step - 1) // step if l > 0 else 0
    if n - lowest > lim or n > 200 * lim:
        raise Unsupported('integer too long')
    a = v if l >= 0 else T.iite(T.ige0(v), v, T.ineg(v))
    out = []
    if isinstance(v, Term) and v.op == 'b2i':
        x = v.args[0]
        w = x.sort
        for k in range(lowest, n + 1):
            hi, lo = min(w, step * k), step * (k - 1)
            c = T.eq(T.extract(x, w - 1, hi), 0, w - hi) if hi < w else True
            if k:
                c = T.band(c, T.bnot(T.eq(T.extract(x, hi - 1, lo), 0, hi - lo)))
            if c is not False:
                out.append((c, k))
        return out
    for k in range(lowest, n + 1):
        lo = 0 if k == 0 else 1 << (step * (k - 1))
        c = True
        if k > 0:
            c = T.band(c, T.ige(a, lo))
        c = T.band(c, T.ilt(a, 1 << (step * k))) if k else T.ieq(a, 0)
        if c is not False:
            out.append((c, k))
    return out


def install(e, prop=None):
    m = e.models

    def reg(name, f):
        """f, with a case distinction over a few values where the operation needs a concrete number: the
        remaining values are left undecided"""
        def g(e, st, a):
            try:
                return f(e, st, a)
            except Concretise as x:
                d, what = x.term, x.what

            def case(k):
                def h(st2):
                    st2.misc['conc'] = dict(st2.misc.get('conc', {}), **{})
                    st2.misc['conc'][d] = k
                    return f(e, st2, a)
                return h

            def rest(st2):
                raise Unsupported(what)
            ks = (1, 2, 3, 0)
            raise Multi([(T.ieq(d, k), case(k)) for k in ks] + [(T.bnot(T.bor(*[T.ieq(d, k) for k in ks])), rest)])
        m['__gmpz_' + name] = g

    rd = e.readmpz
    wr = e.writempz

    def op2(f):
        def g(e, st, a):
            v = f(rd(st, a[1]), rd(st, a[2]))
            rd(st, a[0])
            wr(st, a[0], v)
        return g

    def op2ui(f):
        def g(e, st, a):
            v = f(rd(st, a[1]), unsint(a[2], 64))
            rd(st, a[0])
            wr(st, a[0], v)
        return g

    def op1(f):
        def g(e, st, a):
            v = f(rd(st, a[1]))
            rd(st, a[0])
            wr(st, a[0], v)
        return g

    def initw(f):
        def g(e, st, a):
            wr(st, a[0], f(st, a))
        return g
    reg('init', initw(lambda st, a: 0))
    reg('init2', initw(lambda st, a: 0))
    reg('init_set', initw(lambda st, a: rd(st, a[1])))
    reg('init_set_ui', initw(lambda st, a: unsint(a[1], 64)))
    reg('init_set_si', initw(lambda st, a: sgnint(a[1], 64)))
    reg('realloc2', lambda e, st, a: None)

    def setstr(init):
        def g(e, st, a):
            l = cstring(e, st, a[1])
            base = a[2]
            if not all(isinstance(b, int) for b in l):
                if base == 2 and l:
                    v = 0
                    for b in l:
                        v = T.iadd(T.imul(v, 2), T.isub(T.b2i(b, 8), 48) if isinstance(b, Term) else b - 48)
                    wr(st, a[0], v)
                    return 0
                raise Unsupported('mpz from symbolic string')
            s = bytes(l).decode('latin1')
            s2 = ''.join(s.split())
            try:
                bs = sx(base, 32)
                t = s2
                if bs == 0 and len(t.lstrip('-')) > 1 and t.lstrip('-')[0] == '0' and t.lstrip('-')[1] not in 'xXbB':
                    v = int(t, 8)
                else:
                    if t[:1] == '+':
                        raise ValueError
                    if '_' in t or (bs == 16 and 'x' in t.lower()):
                        raise ValueError
                    v = int(t, bs)
            except ValueError:
                if init:
                    wr(st, a[0], 0)
                return 0xffffffff
            wr(st, a[0], v)
            return 0
        return g
    reg('set_str', setstr(False))
    reg('init_set_str', setstr(True))

    def clear(e, st, a):
        rd(st, a[0])
        for c, q in e.resolve(st, a[0]):
            if c is not True:
                return
            o = e.wobj(st, q.obj)
            o.cells.pop(q.off, None)
            e.clear(o, q.off, 16)
    reg('clear', clear)
    reg('set', lambda e, st, a: (rd(st, a[0]), wr(st, a[0], rd(st, a[1])))[1])
    reg('set_ui', lambda e, st, a: (rd(st, a[0]), wr(st, a[0], unsint(a[1], 64)))[1])
    reg('set_si', lambda e, st, a: (rd(st, a[0]), wr(st, a[0], sgnint(a[1], 64)))[1])

    def swap(e, st, a):
        x, y = rd(st, a[0]), rd(st, a[1])
        wr(st, a[0], y)
        wr(st, a[1], x)
    reg('swap', swap)
    addc = lambda x, y: T.compact(T.iadd(x, y))
    reg('add', op2(addc))
    reg('sub', op2(T.isub))
    reg('mul', op2(T.imul))
    reg('add_ui', op2ui(addc))
    reg('sub_ui', op2ui(T.isub))
    reg('mul_ui', op2ui(T.imul))

    def ui_sub(e, st, a):
        v = T.isub(unsint(a[1], 64), rd(st, a[2]))
        wr(st, a[0], v)
    reg('ui_sub', ui_sub)

    def mul_si(e, st, a):
        wr(st, a[0], T.imul(rd(st, a[1]), sgnint(a[2], 64)))
    reg('mul_si', mul_si)

    def accmul(sign, ui):
        def g(e, st, a):
            y = unsint(a[2], 64) if ui else rd(st, a[2])
            p = T.imul(rd(st, a[1]), y)
            wr(st, a[0], T.iadd(rd(st, a[0]), p) if sign > 0 else T.isub(rd(st, a[0]), p))
        return g
    reg('addmul', accmul(1, 0))
    reg('submul', accmul(-1, 0))
    reg('addmul_ui', accmul(1, 1))
    reg('submul_ui', accmul(-1, 1))
    reg('neg', op1(T.ineg))

    def iabs(v):
        return T.iite(T.ige0(v), v, T.ineg(v))
    reg('abs', op1(iabs))

    def div(kind, what, ui=False):
        def g(e, st, a):
            ai = 2 if what == 'qr' else 1
            n = rd(st, a[ai])
            d = unsint(a[ai + 1], 64) if ui else rd(st, a[ai + 1])

            def one(x):
                if x == 0:
                    raise PathEnd('error', 'division by zero')
                q = idivq(n, x, kind)
                return q

            def rem(x):
                if x == 0:
                    raise PathEnd('error', 'division by zero')
                if kind == 'f' and x > 0:
                    return T.imod(n, x)
                return T.isub(n, T.imul(idivq(n, x, kind), x))
            ret = None
            if what == 'q':
                wr(st, a[0], overconst(e, st, d, one))
                if ui:
                    ret = T.i2b(overconst(e, st, d, lambda x: iabs(rem(x))), 64)
            elif what == 'r':
                r = overconst(e, st, d, rem)
                wr(st, a[0], r)
                if ui:
                    ret = T.i2b(iabs(r), 64)
            else:
                q = overconst(e, st, d, one)
                r = overconst(e, st, d, rem)
                wr(st, a[0], q)
                wr(st, a[1], r)
                if ui:
                    ret = T.i2b(iabs(r), 64)
            return ret
        return g
    for k in 'tfc':
        for w in ('q', 'r', 'qr'):
            reg('%sdiv_%s' % (k, w), div(k, w))
            reg('%sdiv_%s_ui' % (k, w), div(k, w, True))

    def fdiv_ui(kind):
        def g(e, st, a):
            d = unsint(a[1], 64)
            n = rd(st, a[0])
            return T.i2b(iabs(overconst(e, st, d, lambda x: T.isub(n, T.imul(idivq(n, x, kind), x)))), 64)
        return g
    for k in 'tfc':
        reg('%sdiv_ui' % k, fdiv_ui(k))

    def mod(e, st, a):
        n, d = rd(st, a[1]), rd(st, a[2])

        def f(x):
            if x == 0:
                raise PathEnd('error', 'division by zero')
            return T.imod(n, abs(x))
        v = overconst(e, st, d, f)
        rd(st, a[0])
        wr(st, a[0], v)
    reg('mod', mod)

    def divexact(ui):
        def g(e, st, a):
            n = rd(st, a[1])
            d = unsint(a[2], 64) if ui else rd(st, a[2])

            def f(x):
                if x == 0:
                    raise PathEnd('error', 'division by zero')
                if isinstance(n, Term):
                    dd = T.P(n)
                    if all(c % x == 0 for c in dd.values()):
                        return T.mkpoly({k: c // x for k, c in dd.items()})
                return idivq(n, x, 't')
            wr(st, a[0], overconst(e, st, d, f))
        return g
    reg('divexact', divexact(False))
    reg('divexact_ui', divexact(True))

    def shift(n):
        if not isinstance(n, int):
            raise Unsupported('symbolic shift of an mpz')
        if n > 1 << 20:
            raise Unsupported('huge shift')
        return n

    def overshift(f):
        def g(e, st, a):
            x = rd(st, a[1])
            n = a[2]
            rd(st, a[0])
            if isinstance(n, int):
                wr(st, a[0], f(x, shift(n)))
                return
            alts = e.enumerate(st, n, 64)
            r = None
            for v, c in alts:
                y = f(x, shift(v))
                r = y if r is None else T.iite(c, y, r)
            wr(st, a[0], r)
        return g
    reg('mul_2exp', overshift(lambda x, n: T.imul(x, 1 << n)))
    for k in 'tfc':
        reg('%sdiv_q_2exp' % k, overshift(lambda x, n, k=k: idivq(x, 1 << n, k)))
    reg('fdiv_r_2exp', overshift(lambda x, n: T.imod(x, 1 << n)))
    reg('tdiv_r_2exp', overshift(lambda x, n: T.isub(x, T.imul(idivq(x, 1 << n, 't'), 1 << n))))

    def sgn3(lt, eqq):
        return T.ite(eqq, 0, T.ite(lt, T.mask(32), 1, 32), 32)

    def cmp3(x, y):
        if not isinstance(x, Term) and not isinstance(y, Term):
            return (x > y) - (x < y) & T.mask(32) if x >= y else T.mask(32)
        return sgn3(T.ilt(x, y), T.ieq(x, y))
    reg('cmp', lambda e, st, a: cmp3(rd(st, a[0]), rd(st, a[1])))
    reg('cmp_si', lambda e, st, a: cmp3(rd(st, a[0]), sgnint(a[1], 64)))
    reg('cmp_ui', lambda e, st, a: cmp3(rd(st, a[0]), unsint(a[1], 64)))
    reg('cmpabs', lambda e, st, a: cmp3(iabs(rd(st, a[0])), iabs(rd(st, a[1]))))
    reg('cmpabs_ui', lambda e, st, a: cmp3(iabs(rd(st, a[0])), unsint(a[1], 64)))

    def invert(e, st, a):
        x, d = rd(st, a[1]), rd(st, a[2])
        rd(st, a[0])
        if isinstance(d, Term):
            v = overconst(e, st, d, lambda q: T.inv(x, q))
            wr(st, a[0], v)
            return T.var('invert!%d' % e.steps, 32)
        if not isinstance(x, Term):
            try:
                v = pow(x, -1, d)
            except ValueError:
                # GMP leaves the result unspecified
                wr(st, a[0], T.iuf('inv_undef', (x, d), 0, d - 1))
                return 0
            wr(st, a[0], v)
            return 1
        if not T.isprime(d):
            raise Unsupported('inverse modulo a composite')
        wr(st, a[0], T.inv(x, d))
        return T.ite(T.mz(x, d), 0, 1, 32)
    reg('invert', invert)

    def powm(e, st, a):
        b, x, d = rd(st, a[1]), rd(st, a[2]), rd(st, a[3])
        rd(st, a[0])
        if isinstance(d, Term):
            raise Unsupported('symbolic modulus')
        if isinstance(x, Term):
            v = T.powm(T.imod(b, d), x, d)
        elif x < 0:
            v = T.powm(T.inv(b, d), -x, d)
        else:
            v = T.powm(b, x, d)
        wr(st, a[0], v)
    reg('powm', powm)
    reg('powm_sec', powm)

    def powm_ui(e, st, a):
        d = rd(st, a[3])
        wr(st, a[0], T.powm(rd(st, a[1]), unsint(a[2], 64), d))
    reg('powm_ui', powm_ui)

    def pow_ui(e, st, a):
        b, x = rd(st, a[1]), a[2]
        if not isinstance(x, int) or x > 64 and isinstance(b, Term):
            raise Unsupported('symbolic power')
        if not isinstance(b, Term):
            v = b ** x
        else:
            v = 1
            for _ in range(x):
                v = T.imul(v, b)
        wr(st, a[0], v)
    reg('pow_ui', pow_ui)

    def ui_pow_ui(e, st, a):
        if not isinstance(a[1], int) or not isinstance(a[2], int):
            raise Unsupported('symbolic power')
        wr(st, a[0], a[1] ** a[2])
    reg('ui_pow_ui', ui_pow_ui)

    def bits_of(e, st, v):
        l, h = T.irange(v)
        if l is None or h is None or l < 0:
            raise Unsupported('bits of a possibly negative or unbounded integer')
        return T.bitsof(v, max(h.bit_length(), 1))

    def tstbit(e, st, a):
        v, i = rd(st, a[0]), a[1]
        if isinstance(i, int):
            if not isinstance(v, Term):
                return (v >> i) & 1
            b = bits_of(e, st, v)
            b = b[i] if i < len(b) else False
            return T.ite(b, 1, 0, 32)
        r = 0
        for x, c in e.enumerate(st, i, 64, limit=300):
            if not isinstance(v, Term):
                bb = bool((v >> x) & 1)
            else:
                bb = bits_of(e, st, v)
                bb = bb[x] if x < len(bb) else False
            r = T.ite(T.band(c, bb), 1, r, 32)
        return r
    reg('tstbit', tstbit)

    def bitset(val):
        def g(e, st, a):
            v, i = rd(st, a[0]), a[1]
            if not isinstance(i, int):
                raise Unsupported('symbolic bit index')
            if not isinstance(v, Term):
                nv = {1: v | 1 << i, 0: v & ~(1 << i), 2: v ^ 1 << i}[val]
            else:
                b = bits_of(e, st, v)
                b = b[i] if i < len(b) else False
                cur = T.ind(b)
                if val == 1:
                    nv = T.iadd(v, T.imul(1 << i, T.isub(1, cur)))
                elif val == 0:
                    nv = T.isub(v, T.imul(1 << i, cur))
                else:
                    nv = T.iadd(v, T.imul(1 << i, T.isub(1, T.imul(2, cur))))
            wr(st, a[0], nv)
        return g
    reg('setbit', bitset(1))
    reg('clrbit', bitset(0))
    reg('combit', bitset(2))

    def bitwise(op):
        def g(e, st, a):
            x, y = rd(st, a[1]), rd(st, a[2])
            if not isinstance(x, Term) and not isinstance(y, Term):
                wr(st, a[0], {'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
                return
            w = 1
            for v in (x, y):
                l, h = T.irange(v)
                if l is None or h is None or l < 0:
                    raise Unsupported('bitwise operation on a possibly negative integer')
                w = max(w, h.bit_length())
            w += 1
            wr(st, a[0], T.b2i(T.bvbin(op, T.i2b(x, w), T.i2b(y, w), w), w))
        return g
    reg('and', bitwise('and'))
    reg('ior', bitwise('or'))
    reg('xor', bitwise('xor'))
    reg('com', op1(lambda v: T.isub(T.ineg(v), 1)))

    def get_ui(e, st, a):
        v = rd(st, a[0])
        return T.i2b(iabs(v), 64)
    reg('get_ui', get_ui)

    def get_si(e, st, a):
        v = rd(st, a[0])
        if not isinstance(v, Term):
            x = abs(v) & T.mask(63) if v >= 0 else -(((abs(v) - 1) & T.mask(63)) + 1)
            return x & T.mask(64)
        l, h = T.irange(v)
        if l is not None and h is not None and l >= -(1 << 63) and h < 1 << 63:
            return T.i2b(v, 64)
        return T.ite(T.ige0(v), T.concat([(0, 1), (T.extract(T.i2b(v, 64), 62, 0), 63)]), T.i2b(v, 64), 64)
    reg('get_si', get_si)

    def fits(lo, hi):
        def g(e, st, a):
            v = rd(st, a[0])
            return T.ite(T.band(T.ige(v, lo), T.ige(hi, v)), 1, 0, 32)
        return g
    for n, lo, hi in (('ulong', 0, T.mask(64)), ('uint', 0, T.mask(32)), ('ushort', 0, T.mask(16)),
                      ('slong', -(1 << 63), T.mask(63)), ('sint', -(1 << 31), T.mask(31)), ('sshort', -(1 << 15), T.mask(15))):
        reg('fits_%s_p' % n, fits(lo, hi))

    def size(e, st, a):
        v = rd(st, a[0])
        s = e.mpzsize(iabs(v))
        return s if isinstance(s, int) else T.zext(s, 32, 64)
    reg('size', size)

    def sizeinbase(e, st, a):
        v, b = rd(st, a[0]), a[1]
        if not isinstance(v, Term):
            n = abs(v)
            if n == 0:
                return 1
            r = 0
            bb = sx(b, 32)
            while n:
                n //= bb
                r += 1
            return r
        if b & (b - 1):
            raise Unsupported('sizeinbase')
        step = b.bit_length() - 1
        alts = bitlen_alts(e, st, v, step)
        alts = [(c, max(k, 1)) for c, k in alts]
        if len(alts) > 8:
            # those the path allows
            alts = [(c, k) for c, k in alts if e.feasible(st, c)]
        if 1 < len(alts) <= 8:
            # a few lengths: users often round them to bytes, so no case split yet
            r = alts[-1][1]
            for c, k in alts[:-1]:
                r = T.ite(c, k, r, 64)
            return r
        return fork_len(alts, lambda st2, k: k)
    reg('sizeinbase', sizeinbase)

    def fork_len(alts, f):
        d = {}
        for c, k in alts:
            d[k] = T.bor(d.get(k, False), c)
        if len(d) == 1:
            k, = d
            return _Now(f, k)
        raise Multi([(c, (lambda st2, k=k: f(st2, k))) for k, c in d.items()])

    class _Now(Exception):
        def __init__(self, f, k):
            self.f, self.k = f, k

    def finish(st, r):
        return r.f(st, r.k) if isinstance(r, _Now) else r

    def wrapfork(g):
        def h(e, st, a):
            return finish(st, g(e, st, a))
        return h
    m['__gmpz_sizeinbase'] = wrapfork(sizeinbase)

    # ---- byte strings
    def export(e, st, a):
        rop, countp, order, size, endian, nails, op = a
        v = rd(st, op)
        if not all(isinstance(x, int) for x in (order, size, endian, nails)) or nails:
            raise Unsupported('mpz_export parameters')
        order = sx(order, 32)
        endian = sx(endian, 32)
        if endian == 0:
            endian = -1
        if size == 0:
            raise Unsupported('mpz_export size 0')

        def go(st2, k):
            # k words
            x = rd(st2, op)
            if not isinstance(countp, Undef):
                if not (isinstance(countp, Ptr) and countp.obj == 0) and countp != 0:
                    e.store(st2, countp, 8, k)
            if k == 0:
                return rop
            if isinstance(x, Term):
                l, h = T.irange(x)
                bv = T.i2b(x if l >= 0 else iabs(x), 8 * size * k)
            else:
                bv = abs(x)
            if (isinstance(rop, Ptr) and rop.obj == 0) or rop == 0:
                o = e.alloc(st2, size * k, 'malloc')
                p = Ptr(o.id, 0)
            else:
                p = rop
            for i in range(k):
                # i-th least significant word
                pos = (k - 1 - i if order == 1 else i) * size
                for j in range(size):
                    bp = pos + (size - 1 - j if endian == 1 else j)
                    lo = 8 * (i * size + j)
                    e.store(st2, e.padd(p, bp), 1, T.extract(bv, lo + 7, lo))
            return p
        if not isinstance(v, Term):
            return go(st, (abs(v).bit_length() + 8 * size - 1) // (8 * size))
        return finish(st, fork_len(bitlen_alts(e, st, v, 8 * size), go))
    reg('export', export)

    def imp(e, st, a):
        rop, count, order, size, endian, nails, p = a
        if not all(isinstance(x, int) for x in (order, size, endian, nails)) or nails:
            raise Unsupported('mpz_import parameters')
        order = sx(order, 32)
        endian = sx(endian, 32)
        if endian == 0:
            endian = -1
        rd(st, rop)

        def go(st2, k):
            bs = [None] * (k * size)
            for i in range(k):
                pos = (k - 1 - i if order == 1 else i) * size
                for j in range(size):
                    bp = pos + (size - 1 - j if endian == 1 else j)
                    b = e.load(st2, e.padd(p, bp), 1)
                    if isinstance(b, Undef):
                        raise PathEnd('error', 'read of uninitialised memory')
                    bs[i * size + j] = b
            v = T.b2i(T.concat([(b, 8) for b in reversed(bs)]), 8 * len(bs)) if bs else 0
            wr(st2, rop, v)
        if isinstance(count, int):
            if count * size > 1 << 20:
                # the length cannot be backed by memory: run off the end
                e.load(st, e.padd(p, 0), 1)
                e.load(st, e.padd(p, count * size - 1), 1)
                raise PathEnd('error', 'mpz_import of an absurd length')
            return go(st, count)
        alts = e.enumerate(st, count, 64, limit=300)
        raise Multi([(c, (lambda st2, k=k: go(st2, k))) for k, c in alts])
    reg('import', imp)

    def get_str(e, st, a):
        p, base, op = a
        v = rd(st, op)
        base = sx(base, 32)

        def out(st2, digits):
            if (isinstance(p, Ptr) and p.obj == 0) or p == 0:
                o = e.alloc(st2, len(digits) + 1, 'malloc')
                q = Ptr(o.id, 0)
            else:
                q = p
            for i, d in enumerate(digits):
                e.store(st2, e.padd(q, i), 1, d)
            e.store(st2, e.padd(q, len(digits)), 1, 0)
            return q
        if not isinstance(v, Term):
            ds = '0123456789abcdefghijklmnopqrstuvwxyz'
            if base < 0:
                ds = ds.upper()
            b = abs(base)
            if b < 2:
                b = 10
            n = abs(v)
            s = ''
            while n:
                s = ds[n % b] + s
                n //= b
            s = ('-' if v < 0 else '') + (s or '0')
            return out(st, s.encode())
        if base not in (2, -2):
            raise Unsupported('decimal string of a symbolic integer')
        l, h = T.irange(v)
        if l is None or l < 0:
            raise Unsupported('binary string of a possibly negative integer')
        bits = T.bitsof(v, max(h.bit_length(), 1))

        def go(st2, k):
            if k == 0:
                return out(st2, [48])
            ds = []
            for i in range(k - 1, -1, -1):
                b = bits[i] if i < k - 1 else True
                ds.append(T.ite(b, 49, 48, 8))
            return out(st2, ds)
        return finish(st, fork_len(bitlen_bits(v, bits), go))
    reg('get_str', get_str)

    def bitlen_bits(v, bits):
        out = []
        n = len(bits)
        nots = [T.bnot(b) for b in bits]
        for k in range(n + 1):
            c = T.band(*nots[k:])
            if k:
                c = T.band(c, bits[k - 1])
            if c is not False:
                out.append((c, k))
        return out

    # ---- number theory on constants
    def conc(f):
        def g(e, st, a):
            xs = [rd(st, x) if isinstance(x, (Ptr, PIte)) else x for x in a]
            if any(isinstance(x, Term) for x in xs):
                raise Unsupported('number-theoretic function on a symbolic integer')
            return f(st, a, xs)
        return g

    def legendre(e, st, a):
        x, p = rd(st, a[0]), rd(st, a[1])
        if isinstance(p, Term):
            raise Unsupported('symbolic modulus')
        if not isinstance(x, Term):
            r = pow(x, (p - 1) // 2, p)
            return {0: 0, 1: 1}.get(r, T.mask(32))
        x = T.imod(x, p)
        z = T.mz(x, p)
        r = T.powm(x, (p - 1) // 2, p)
        return T.ite(z, 0, T.ite(T.ieq(r, 1), 1, T.mask(32), 32), 32)
    reg('jacobi', legendre)
    reg('legendre', legendre)
    reg('kronecker', legendre)

    def odd(e, st, a):
        return None

    def divides(e, st, v, d):
        return overconst(e, st, d, lambda d: T.ite(T.ieq(v, 0) if d == 0 else T.mz(v, abs(d)), 1, 0, 32))

    def divisible_ui(e, st, a):
        return divides(e, st, rd(st, a[0]), unsint(a[1], 64))
    reg('divisible_ui_p', divisible_ui)

    def divisible(e, st, a):
        return divides(e, st, rd(st, a[0]), rd(st, a[1]))
    reg('divisible_p', divisible)

    def congruent(e, st, a):
        d = rd(st, a[2])
        if isinstance(d, Term):
            raise Unsupported('symbolic modulus')
        return T.ite(T.mz(T.isub(rd(st, a[0]), rd(st, a[1])), abs(d)), 1, 0, 32)
    reg('congruent_p', congruent)

    def gcd(st, a, xs):
        from math import gcd as g
        wr(st, a[0], g(xs[1], xs[2]))
    reg('gcd', conc(gcd))

    def sqrt(st, a, xs):
        from math import isqrt
        wr(st, a[0], isqrt(xs[1]))
    reg('sqrt', conc(sqrt))
    reg('probab_prime_p', conc(lambda st, a, xs: 1 if T.isprime(xs[0]) else 0))

    # ---- randomness
    def draw(e, st, kind, bound):
        i = st.ndraws
        st.ndraws += 1
        st.misc['bounds'] = st.misc.get('bounds', ()) + (bound,)
        sc = st.misc.get('script')
        if sc is not None:
            v = sc[0] if sc else 0
            st.misc['script'] = sc[1:]
            ok = T.band(T.ige(v, 0), T.ilt(v, bound))
            ok = e.simp(st, ok)
            if ok is not True:
                e.violation(st, T.bnot(ok), st.misc['scriptlabel'])
                if ok is False:
                    raise PathEnd('infeasible')
                e.assume(st, ok)
            return v
        f = e.opts.get('drawfn')
        v = None
        ag = st.misc.get('again')
        if ag and i - ag[0] + ag[1] != ag[2]:
            v = next((d[3] for d in st.draws if d[0] == i - ag[0] + ag[1] and d[1:3] == (kind, bound)), None)
        if v is None and f is not None:
            v = f(e, st, i, kind, bound)
        if v is None:
            v = mkdraw(e, st, i, bound)
        st.draws = st.draws + ((i, kind, bound, v),)
        return v

    def mkdraw(e, st, i, bound):
        return T.ivar('draw%d_%d' % (i, bound % 999983), 0, bound - 1)
    e.draw = lambda st, kind, bound: draw(e, st, kind, bound)

    def urandomm(e, st, a):
        n = rd(st, a[2])
        rd(st, a[0])
        if isinstance(n, Term):
            raise Unsupported('random draw with a symbolic bound')
        if n <= 0:
            raise PathEnd('error', 'random draw with an empty range')
        wr(st, a[0], draw(e, st, 'm', n))
    reg('urandomm', urandomm)

    def urandomb(e, st, a):
        n = a[2]
        if not isinstance(n, int):
            raise Unsupported('random draw with a symbolic size')
        rd(st, a[0])
        wr(st, a[0], draw(e, st, 'b', 1 << n))
    reg('urandomb', urandomb)
    m['__gmp_randinit_default'] = lambda e, st, a: None
    m['__gmp_randinit_mt'] = lambda e, st, a: None
    m['__gmp_randinit_set'] = lambda e, st, a: None
    m['__gmp_randclear'] = lambda e, st, a: None
    m['__gmp_randseed'] = lambda e, st, a: None
    m['__gmp_randseed_ui'] = lambda e, st, a: None

    def urandomm_ui(e, st, a):
        if not isinstance(a[1], int):
            raise Unsupported('random draw with a symbolic bound')
        return T.i2b(draw(e, st, 'u', a[1]), 64)
    m['__gmp_urandomm_ui'] = urandomm_ui
    m['__gmp_urandomb_ui'] = lambda e, st, a: T.i2b(draw(e, st, 'v', 1 << a[1]), 64)

    def rand(e, st, a):
        return T.i2b(draw(e, st, 'r', 1 << 31), 32)
    m['rand'] = rand
    m['random'] = lambda e, st, a: T.i2b(draw(e, st, 'r', 1 << 31), 64)
    m['srand'] = lambda e, st, a: None
    m['time'] = lambda e, st, a: T.i2b(draw(e, st, 't', 1 << 40), 64)

    def memfuns(e, st, a):
        for p, n in zip(a, ('malloc', 'symx_realloc3', 'free')):
            if isinstance(p, Ptr) and p.obj == 0:
                continue
            e.store(st, p, 8, Ptr(e.funcptr(n), 0))
    m['__gmp_get_memory_functions'] = memfuns
