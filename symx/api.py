"""The symx_* functions of harness/symx.h, as the symbolic executor sees them."""
from . import term as T
from .term import Term
from .engine import Undef, UNDEF, PathEnd, Unsupported, Multi, Ptr, sx
from .gmp import pystr


def truth(e, v):
    if isinstance(v, Undef):
        raise PathEnd('error', 'use of an uninitialised value')
    if isinstance(v, int):
        return v != 0
    if v.sort == 'B':
        return v
    return T.bnot(T.eq(v, 0, v.sort))


def asint(b, w=32):
    return T.ite(b, 1, 0, w) if isinstance(b, Term) else int(b)


def record(st, name, term):
    d = dict(st.misc.get('inputs', {}))
    if name in d and d[name] is not term:
        raise Unsupported('input %s created twice' % name)
    d[name] = term
    st.misc['inputs'] = d


def hexint(s):
    return int(s, 16)


def install(e):
    m = e.models
    names = {}

    def atom(e, name, bounds):
        """an input asked for with other bounds (in another variant of the harness) is another unknown"""
        d = names.setdefault(name, {})
        return d.setdefault(bounds, name + '~%d' % len(d) if d else name)

    def mpz(e, st, a):
        name = pystr(e, st, a[1])
        lo, hi = hexint(pystr(e, st, a[2])), hexint(pystr(e, st, a[3]))
        f = e.opts.get('inputfn')
        v = f(e, st, name, lo, hi) if f else None
        if v is None:
            v = T.ivar(atom(e, name, (lo, hi)), lo, hi)
        record(st, name, v)
        e.writempz(st, a[0], v)
    m['symx_mpz'] = mpz

    def word(e, st, a):
        name = pystr(e, st, a[0])
        lo, hi = a[1], a[2]
        w = max(1, hi.bit_length())
        v = T.var(atom(e, name, (lo, hi)), w)
        if (lo, hi) != (0, T.mask(w)):
            v.aux = (lo, hi)
            v.lo, v.hi = lo, hi
        record(st, name, v)
        return T.zext(v, w, 64)
    m['symx_word'] = word

    def crc32c(e, st, a):
        init, p, n = a
        if not isinstance(n, int):
            raise Unsupported('checksum of a buffer of symbolic length')
        tab = []
        for b in range(256):
            for _ in range(8):
                b = b >> 1 ^ 0x82F63B78 if b & 1 else b >> 1
            tab.append(b)
        e.boundscheck(st, st.objs[p.obj], p.off, n, 'read')
        bs = [e.load(st, e.padd(p, i), 1) for i in range(n)]
        if any(isinstance(b, Undef) for b in bs):
            raise PathEnd('error', 'use of an uninitialised value')
        # the checksum is linear: contributions from the last byte to the first
        cols = [1 << j for j in range(32)]

        def step():
            for j in range(32):
                v = cols[j]
                cols[j] = v >> 8 ^ tab[v & 255]

        def image(m):
            r = 0
            while m:
                l = m & -m
                r ^= cols[l.bit_length() - 1]
                m ^= l
            return r
        acc = [0] * 32

        def add(v, w):
            for k, x in enumerate(T.tolin(v, w)):
                if x:
                    i = image(1 << k)
                    while i:
                        l = i & -i
                        acc[l.bit_length() - 1] ^= x
                        i ^= l
        for b in reversed(bs):
            step()
            if isinstance(b, Term):
                add(b, 8)
            else:
                i = image(b)
                for k in range(32):
                    acc[k] ^= i >> k & 1
        add(init, 32)
        return T.mklin(acc)
    m['symx_crc32c'] = crc32c

    def choose(e, st, a):
        name = pystr(e, st, a[0])
        n = a[1]
        only = e.opts.get('choose', {}).get(name)
        v = T.var(name, 16)
        v.aux = (0, n - 1)
        v.lo, v.hi = 0, n - 1
        record(st, name, v)
        if isinstance(only, (list, tuple, range)):
            raise Multi([(T.eq(v, i, 16), (lambda st2, i=i: i)) for i in only])
        if only is not None:
            e.assume(st, T.eq(v, only, 16))
            return only
        if n == 1:
            return 0
        raise Multi([(T.eq(v, i, 16), (lambda st2, i=i: i)) for i in range(n)])
    m['symx_choose'] = choose

    def byts(e, st, a):
        n = a[1]
        name = pystr(e, st, a[2])
        if not isinstance(n, int):
            raise Unsupported('symbolic length')
        d = dict(st.misc.get('inputs', {}))
        for i in range(n):
            v = T.var('%s[%d]' % (name, i), 8)
            d['%s[%d]' % (name, i)] = v
            e.store(st, e.padd(a[0], i), 1, v)
        st.misc['inputs'] = d
    m['symx_bytes'] = byts

    def bits(e, st, a):
        name = pystr(e, st, a[1])
        n = a[2]
        v = T.var(name, 8 * n)
        record(st, name, v)
        e.writempz(st, a[0], T.b2i(v, 8 * n))
    m['symx_bits'] = bits

    def pick(e, st, a):
        v, lo, hi = a[1], a[2], a[3]
        if isinstance(v, int):
            return v & T.mask(32)
        e.assume(st, T.band(T.ule(lo, v, 64), T.ule(v, hi, 64)))
        raise Multi([(T.eq(v, k, 64), (lambda st2, k=k: k)) for k in range(lo, hi + 1)])
    m['symx_pick'] = pick

    def assume(e, st, a):
        c = truth(e, a[0])
        e.assume(st, c)
        if c is not True and not e.feasible(st, c):
            raise PathEnd('infeasible')
    m['symx_assume'] = assume

    def check(e, st, a):
        label = pystr(e, st, a[1])
        c = truth(e, a[0])
        c = e.simp(st, c)
        if c is True:
            e.checks.append((label, 'unsat'))
            e.trivial += 1
            e.solver.st.queries += 1
            e.solver.st.bysimp += 1
            e.solver.st.unsat += 1
            return
        if c is False:
            e.violation(st, True, label)
            return
        if e.violation(st, T.bnot(c), label) or e.opts.get('lemmas', True):
            e.assume(st, c)
    m['symx_check'] = check

    def fail(e, st, a):
        e.violation(st, True, pystr(e, st, a[0]))
    m['symx_fail'] = fail

    def reach(e, st, a):
        label = pystr(e, st, a[0])
        l = e.reached.setdefault(label, [0, []])
        l[0] += 1
        if len(l[1]) < e.opts.get('reachmodels', 3):
            l[1].append((list(st.pc), st.draws, dict(st.misc.get('inputs', {}))))
    m['symx_reach'] = reach

    m['symx_symbolic'] = lambda e, st, a: 1

    def uninit(e, st, a):
        q = e.resolve(st, a[0])[0][1]
        o = e.wobj(st, q.obj)
        e.boundscheck(st, o, q.off, a[1], 'write')
        e.clear(o, q.off, a[1])
        o.zero = False
    m['symx_uninit'] = uninit
    m['symx_and'] = lambda e, st, a: asint(T.band(truth(e, a[0]), truth(e, a[1])))
    m['symx_or'] = lambda e, st, a: asint(T.bor(truth(e, a[0]), truth(e, a[1])))
    m['symx_ite'] = lambda e, st, a: asint(T.bite(truth(e, a[0]), truth(e, a[1]), truth(e, a[2])))

    def modeq(e, st, a):
        x, y, n = (e.readmpz(st, p) for p in a)
        if isinstance(n, Term):
            raise Unsupported('symbolic modulus')
        return asint(T.mz(T.isub(x, y), n))
    m['symx_mod_eq'] = modeq
    m['symx_mpz_eq'] = lambda e, st, a: asint(T.ieq(e.readmpz(st, a[0]), e.readmpz(st, a[1])))
    m['symx_mpz_lt'] = lambda e, st, a: asint(T.ilt(e.readmpz(st, a[0]), e.readmpz(st, a[1])))

    def oncurve(e, st, a):
        from .curves import CURVES
        c = CURVES[a[2]]
        x, y = e.readmpz(st, a[0]), e.readmpz(st, a[1])
        f = T.isub(T.imul(y, y), T.iadd(T.iadd(T.imul(x, T.imul(x, x)), T.imul(c.a, x)), c.b))
        e.assume(st, T.mz(f, c.p))
        if (y, c.p) not in e.solver.sqrtwits:
            e.solver.sqrtwits.append((y, c.p))
        if c.noroot():
            # consequence: the cubic has no root modulo p, so y is not zero
            e.assume(st, T.bnot(T.mz(y, c.p)))
    m['symx_oncurve'] = oncurve

    def cubic(e, st, a):
        from .curves import CURVES
        c = CURVES[a[1]]
        x = e.readmpz(st, a[0])
        if c.noroot():
            e.assume(st, T.bnot(T.mz(T.iadd(T.iadd(T.imul(x, T.imul(x, x)), T.imul(c.a, x)), c.b), c.p)))
    m['symx_cubic'] = cubic

    # the random source under the control of the harness
    def script(e, st, a):
        n = a[1]
        st.misc['script'] = tuple(e.readmpz(st, e.padd(a[0], 16 * i)) for i in range(n))
        st.misc['scriptlabel'] = pystr(e, st, a[2])
    m['symx_script'] = script

    def unscript(e, st, a):
        st.misc['script'] = None
    m['symx_unscript'] = unscript
    m['symx_free'] = lambda e, st, a: None
    m['symx_repeats'] = lambda e, st, a: 1

    def again(e, st, a):
        st.misc['again'] = (st.ndraws, a[0], a[1])
    m['symx_again'] = again

    def unagain(e, st, a):
        st.misc['again'] = None
    m['symx_unagain'] = unagain

    def drawval(e, st, a):
        e.writempz(st, a[0], next(d[3] for d in st.draws if d[0] == a[1]))
    m['symx_drawval'] = drawval
    m['symx_drawn'] = lambda e, st, a: st.ndraws

    def drawbound(e, st, a):
        e.writempz(st, a[0], st.misc['bounds'][a[1]])
    m['symx_drawbound'] = drawbound

    # names and labels selected by a condition: one path per alternative
    def named(f, k):
        def g(e, st, a):
            if isinstance(a[k], Ptr) and isinstance(a[k].off, int):
                return f(e, st, a)
            alts = e.resolve(st, a[k])
            if len(alts) == 1:
                return f(e, st, a[:k] + [alts[0][1]] + a[k + 1:])
            raise Multi([(c, (lambda st2, q=q: f(e, st2, a[:k] + [q] + a[k + 1:]))) for c, q in alts])
        return g
    for n, k in (('symx_check', 1), ('symx_fail', 0), ('symx_reach', 0), ('symx_mpz', 1), ('symx_word', 0), ('symx_bits', 1)):
        m[n] = named(m[n], k)
