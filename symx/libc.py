"""Models of libc / libstdc++ / OpenSSL entry points."""
from . import term as T
from .term import Term
from .engine import Ptr, PIte, Undef, UNDEF, NULL, PathEnd, Unsupported, Multi, sx, Mpz, MpzPart
from .gmp import cstring


def isnull(p):
    return (isinstance(p, Ptr) and p.obj == 0) or (isinstance(p, int) and p == 0)


def install(e):
    m = e.models

    def oversize(st, n, f, limit=400):
        if isinstance(n, Undef):
            raise PathEnd('error', 'use of an uninitialised size')
        if isinstance(n, int):
            return f(st, n)
        n2 = n
        alts = e.enumerate(st, n2, 64, limit=limit)
        if len(alts) == 1:
            e.assume(st, alts[0][1])
            return f(st, alts[0][0])
        raise Multi([(c, (lambda st2, k=k: f(st2, k))) for k, c in alts])

    def mkalloc(kind, fail=1 << 31):
        def g(e, st, a):
            def f(st2, n):
                if n > fail:
                    raise PathEnd('error', 'absurd allocation of %d bytes' % n)
                o = e.alloc(st2, n, kind)
                return Ptr(o.id, 0)
            return oversize(st, a[0], f)
        return g
    m['malloc'] = mkalloc('malloc')
    m['_Znwm'] = mkalloc('new')
    m['_Znam'] = mkalloc('new[]')
    m['_ZnwmSt11align_val_t'] = mkalloc('new')
    m['_ZnwmRKSt9nothrow_t'] = mkalloc('new')
    m['_ZnamRKSt9nothrow_t'] = mkalloc('new[]')

    def calloc(e, st, a):
        def f(st2, n):
            o = e.alloc(st2, n, 'malloc', zero=True)
            return Ptr(o.id, 0)
        n = T.bvbin('mul', a[0], a[1], 64)
        return oversize(st, n, f)
    m['calloc'] = calloc

    def mkfree(kind, what):
        def g(e, st, a):
            p = a[0]
            if isnull(p):
                return
            if isinstance(p, Undef):
                raise PathEnd('error', what + ' of an uninitialised pointer')
            if isinstance(p, PIte):
                alts = []
                for c, q in e.palts(p):
                    alts.append((c, (lambda st2, q=q: one(st2, q))))
                raise Multi(alts)
            one(st, p)

        def one(st, p):
            if isnull(p):
                return
            if not isinstance(p, Ptr):
                raise Unsupported(what + ' of a non-pointer')
            o = st.objs.get(p.obj)
            if o is None:
                raise PathEnd('error', 'double ' + what + ' or ' + what + ' of an invalid pointer')
            if p.off != 0 or o.kind not in ('malloc', 'new', 'new[]'):
                raise PathEnd('error', what + ' of memory that was not allocated')
            if o.kind != kind:
                raise PathEnd('error', 'memory from %s released with %s' % (o.kind, what))
            del st.objs[p.obj]
        return g
    m['free'] = mkfree('malloc', 'free')
    for n in ('_ZdlPv', '_ZdlPvm', '_ZdlPvSt11align_val_t'):
        m[n] = mkfree('new', 'delete')
    for n in ('_ZdaPv', '_ZdaPvm'):
        m[n] = mkfree('new[]', 'delete[]')

    def realloc(e, st, a):
        p, n = a[0], a[1]
        if len(a) == 3:
            n = a[2]
        if isnull(p):
            return m['malloc'](e, st, [n])
        if not isinstance(p, Ptr) or not isinstance(n, int):
            raise Unsupported('realloc')
        o = st.objs.get(p.obj)
        if o is None or p.off != 0 or o.kind != 'malloc':
            raise PathEnd('error', 'realloc of an invalid pointer')
        q = e.alloc(st, n, 'malloc')
        e._copy1(st, Ptr(q.id, 0), p, min(n, o.size))
        del st.objs[p.obj]
        return Ptr(q.id, 0)
    m['realloc'] = realloc
    m['symx_realloc3'] = realloc

    def memcpy(e, st, a):
        def f(st2, n):
            if n:
                e.memcpy(st2, a[0], a[1], n)
            return a[0]
        return oversize(st, a[2], f)
    for n in ('memcpy', 'memmove'):
        m[n] = memcpy

    def memset(e, st, a):
        v = a[1]
        if isinstance(v, int):
            v &= 255
        elif isinstance(v, Term) and v.sort != 8:
            v = T.extract(v, 7, 0)

        def f(st2, n):
            if n == 0:
                return a[0]
            al = e.resolve(st2, a[0], 'write')
            if len(al) != 1:
                raise Unsupported('memset through a symbolic pointer')
            q = al[0][1]
            o = st2.objs.get(q.obj)
            if o is None:
                e.memerror(st2, q.obj)
            e.boundscheck(st2, o, q.off, n, 'write')
            if n > 1 << 22:
                raise Unsupported('huge memset')
            o = e.wobj(st2, q.obj)
            e.clear(o, q.off, n)
            if v == 0 and n == o.size:
                o.zero = True
                o.cells = {}
            else:
                i = 0
                # word cells where aligned keeps the cell count low
                if isinstance(v, int):
                    while i < n:
                        if n - i >= 8 and (q.off + i) % 8 == 0:
                            o.cells[q.off + i] = (8, v * 0x0101010101010101)
                            i += 8
                        else:
                            o.cells[q.off + i] = (1, v)
                            i += 1
                else:
                    for i in range(n):
                        o.cells[q.off + i] = (1, v)
            return a[0]
        return oversize(st, a[2], f)
    m['memset'] = memset

    def memcmp(e, st, a):
        def f(st2, n):
            r = 0
            for i in range(n - 1, -1, -1):
                x, y = e.load(st2, e.padd(a[0], i), 1), e.load(st2, e.padd(a[1], i), 1)
                if isinstance(x, Undef) or isinstance(y, Undef):
                    raise PathEnd('error', 'read of uninitialised memory')
                r = T.ite(T.eq(x, y, 8), r, T.ite(T.ult(x, y, 8), T.mask(32), 1, 32), 32)
            return r
        return oversize(st, a[2], f)
    m['memcmp'] = memcmp
    m['bcmp'] = memcmp

    def strlen(e, st, a):
        return len(cstring(e, st, a[0]))
    m['strlen'] = strlen

    def intrinsic(name, e, st, a):
        pass
    import re

    def rx(pat, f):
        e.rxmodels.append((re.compile(pat), f))
    rx(r'^llvm\.memcpy', memcpy)
    rx(r'^llvm\.memmove', memcpy)
    rx(r'^llvm\.memset', memset)

    def lifetime(e, st, a):
        p = a[-1]
        if isinstance(p, Ptr):
            o = st.objs.get(p.obj)
            if o is not None and p.off == 0 and o.cells:
                o = e.wobj(st, p.obj)
                o.cells = {}
    rx(r'^llvm\.lifetime\.', lifetime)
    rx(r'^llvm\.(assume|experimental\.noalias|dbg|donothing|prefetch|invariant|stackrestore)', lambda e, st, a: None)
    rx(r'^llvm\.stacksave', lambda e, st, a: NULL)
    rx(r'^llvm\.expect', lambda e, st, a: a[0])

    def mm(kind):
        def g(e, st, a):
            x, y = a
            w = e._width2(x, y)
            if isinstance(x, Undef) or isinstance(y, Undef):
                return UNDEF
            if isinstance(x, int) and isinstance(y, int):
                if kind == 'umax':
                    return max(x, y)
                if kind == 'umin':
                    return min(x, y)
                b = 1 << 63
                sxx = lambda v: v
                return None
            if kind == 'umax':
                return T.ite(T.ult(x, y, w), y, x, w)
            if kind == 'umin':
                return T.ite(T.ult(x, y, w), x, y, w)
            if kind == 'smax':
                return T.ite(T.slt(x, y, w), y, x, w)
            return T.ite(T.slt(x, y, w), x, y, w)
        return g

    def minmax(e, st, a):
        raise Unsupported('minmax')
    for k in ('umax', 'umin', 'smax', 'smin'):
        for w in (8, 16, 32, 64):
            def g(e, st, a, k=k, w=w):
                x, y = a
                if isinstance(x, Undef) or isinstance(y, Undef):
                    return UNDEF
                lt = (T.ult if k[0] == 'u' else T.slt)(x, y, w)
                return T.ite(lt, y, x, w) if k.endswith('max') else T.ite(lt, x, y, w)
            m['llvm.%s.i%d' % (k, w)] = g
    for w in (8, 16, 32, 64):
        def g(e, st, a, w=w):
            x = a[0]
            if isinstance(x, Undef):
                return x
            return T.ite(T.slt(x, 0, w), T.bvbin('sub', 0, x, w), x, w)
        m['llvm.abs.i%d' % w] = g

        def bsw(e, st, a, w=w):
            x = a[0]
            if isinstance(x, Undef):
                return x
            return T.concat([(T.extract(x, i + 7, i), 8) for i in range(0, w, 8)])
        m['llvm.bswap.i%d' % w] = bsw

        def fsh(left):
            def g(e, st, a, w=w):
                x, y, s = a
                if not isinstance(s, int):
                    raise Unsupported('symbolic funnel shift')
                s %= w
                if s == 0:
                    return x if left else y
                if not left:
                    s = w - s
                return T.concat([(T.extract(x, w - 1 - s, 0), w - s), (T.extract(y, w - 1, w - s), s)])
            return g
        m['llvm.fshl.i%d' % w] = fsh(True)
        m['llvm.fshr.i%d' % w] = fsh(False)

        def ctz(e, st, a, w=w):
            x = a[0]
            if isinstance(x, int):
                return (x & -x).bit_length() - 1 if x else w
            r = w
            for i in range(w - 1, -1, -1):
                r = T.ite(T.eq(T.extract(x, i, i), 1, 1), i, r, w)
            return r

        def clz(e, st, a, w=w):
            x = a[0]
            if isinstance(x, int):
                return w - x.bit_length()
            r = w
            for i in range(w):
                r = T.ite(T.eq(T.extract(x, i, i), 1, 1), w - 1 - i, r, w)
            return r

        def ctpop(e, st, a, w=w):
            x = a[0]
            if isinstance(x, int):
                return bin(x).count('1')
            r = 0
            for i in range(w):
                r = T.bvbin('add', r, T.zext(T.extract(x, i, i), 1, w), w)
            return r
        m['llvm.cttz.i%d' % w] = ctz
        m['llvm.ctlz.i%d' % w] = clz
        m['llvm.ctpop.i%d' % w] = ctpop

        def uadd(op, w=w):
            def g(e, st, a):
                x, y = a
                r = T.bvbin(op, T.zext(x, w, w + 1) if isinstance(x, Term) else x,
                            T.zext(y, w, w + 1) if isinstance(y, Term) else y, w + 1)
                lo = T.extract(r, w - 1, 0)
                ov = T.eq(T.extract(r, w, w), 1, 1)
                return (lo, T.bool2i(ov))
            return g
        m['llvm.uadd.with.overflow.i%d' % w] = uadd('add')
        m['llvm.usub.with.overflow.i%d' % w] = uadd('sub')

        def usubsat(e, st, a, w=w):
            x, y = a
            return T.ite(T.ult(x, y, w), 0, T.bvbin('sub', x, y, w), w)
        m['llvm.usub.sat.i%d' % w] = usubsat

        def umulov(e, st, a, w=w):
            x, y = a
            r = T.bvbin('mul', T.zext(x, w, 2 * w) if isinstance(x, Term) else x,
                        T.zext(y, w, 2 * w) if isinstance(y, Term) else y, 2 * w)
            lo = T.extract(r, w - 1, 0)
            return (lo, T.bool2i(T.bnot(T.eq(T.extract(r, 2 * w - 1, w), 0, w))))
        m['llvm.umul.with.overflow.i%d' % w] = umulov

    # ---- exceptions and termination
    def thrower(msg):
        def g(e, st, a):
            raise PathEnd('error', msg)
        return g
    m['__cxa_allocate_exception'] = lambda e, st, a: Ptr(e.alloc(st, 256, 'exception').id, 0)
    m['__cxa_free_exception'] = lambda e, st, a: None

    def throw(e, st, a):
        h = st.misc.get('onthrow')
        raise PathEnd('error', 'exception thrown')
    m['__cxa_throw'] = throw
    m['__cxa_rethrow'] = throw
    m['__cxa_bad_cast'] = thrower('bad cast')
    m['__cxa_pure_virtual'] = thrower('pure virtual call')
    m['abort'] = thrower('abort called')
    m['exit'] = thrower('exit called')
    m['_ZSt9terminatev'] = thrower('terminate called')
    m['__assert_fail'] = thrower('assertion failed')
    m['__stack_chk_fail'] = thrower('stack smashing')
    rx(r'^std::__throw_', thrower('exception thrown'))
    rx(r'^std::__glibcxx_assert_fail', thrower('library assertion failed'))
    rx(r'^std::(\w+_error|invalid_argument|out_of_range|exception|bad_alloc)::~?(\w+)\(', lambda e, st, a: None)
    m['__cxa_atexit'] = lambda e, st, a: 0
    m['__cxa_guard_acquire'] = guard_acquire
    m['__cxa_guard_release'] = guard_release
    m['__cxa_guard_abort'] = lambda e, st, a: None
    m['__dso_handle'] = lambda e, st, a: None
    rx(r'^std::ios_base::Init::', lambda e, st, a: None)
    m['puts'] = lambda e, st, a: 0
    m['putchar'] = lambda e, st, a: 0
    m['printf'] = lambda e, st, a: 0
    m['fprintf'] = lambda e, st, a: 0
    m['fputs'] = lambda e, st, a: 0
    m['fwrite'] = lambda e, st, a: a[2]
    m['fflush'] = lambda e, st, a: 0
    m['perror'] = lambda e, st, a: None
    rx(r'^(std::)?(basic_)?ostream(<char.*>)?& (std::)?operator<<', lambda e, st, a: a[0])
    rx(r'^std::basic_ostream<char, std::char_traits<char> >& std::(operator<<|__ostream_insert|endl|flush)', lambda e, st, a: a[0])
    rx(r'^std::(basic_)?ostream(<char, std::char_traits<char> >)?::', lambda e, st, a: a[0])

    # ---- std::string growth (the rest of std::string comes from libstdc++'s own headers)
    def m_create(e, st, a):
        cap = e.load(st, a[1], 8)
        old = a[2]
        if not isinstance(cap, int) or not isinstance(old, int):
            raise Unsupported('string of symbolic length')
        if cap > (1 << 62):
            raise PathEnd('error', 'exception thrown (string length)')
        if cap > old and cap < 2 * old:
            cap = 2 * old
            e.store(st, a[1], 8, cap)
        return Ptr(e.alloc(st, cap + 1, 'new').id, 0)
    m['_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm'] = m_create
    openssl(e)


def guard_acquire(e, st, a):
    v = e.load(st, a[0], 1)
    return 0 if isinstance(v, int) and v else 1


def guard_release(e, st, a):
    e.store(st, a[0], 1, 1)


def openssl(e):
    m = e.models
    CIPH = {'EVP_aes_128_ctr': 16, 'EVP_aes_192_ctr': 24, 'EVP_aes_256_ctr': 32}

    def cipher(name, klen):
        def g(e, st, a):
            # an opaque non-null pointer carrying the key length
            key = ('cipher', name)
            oid = e.opts.setdefault('_cipher', {}).get(name)
            if oid is None:
                oid = e.nextobj
                e.nextobj += 1
                e.opts['_cipher'][name] = oid
                e.opts.setdefault('_cipherlen', {})[oid] = klen
            return Ptr(oid, 0)
        return g
    for n, k in CIPH.items():
        m[n] = cipher(n, k)

    def new(e, st, a):
        o = e.alloc(st, 160, 'evp')
        o.cells[0] = (4, 0)        # initialised
        o.cells[4] = (4, 0)        # position in the key stream
        o.cells[8] = (8, 0)        # cipher
        return Ptr(o.id, 0)
    m['EVP_CIPHER_CTX_new'] = new

    def free(e, st, a):
        p = a[0]
        if isinstance(p, Ptr) and p.obj == 0:
            return
        o = st.objs.get(p.obj)
        if o is None or o.kind != 'evp':
            raise PathEnd('error', 'EVP_CIPHER_CTX_free of an invalid context')
        del st.objs[p.obj]
    m['EVP_CIPHER_CTX_free'] = free

    def reset(e, st, a):
        e.store(st, a[0], 4, 0)
        e.store(st, e.padd(a[0], 4), 4, 0)
        e.store(st, e.padd(a[0], 8), 8, 0)
        return 1
    m['EVP_CIPHER_CTX_reset'] = reset
    m['EVP_CIPHER_CTX_init'] = reset
    m['EVP_CIPHER_CTX_set_padding'] = lambda e, st, a: 1

    def init(e, st, a):
        ctx, cipherp, impl, key, iv = a[:5]
        if not isnull(cipherp):
            if not isinstance(cipherp, Ptr) or cipherp.obj not in e.opts.get('_cipherlen', {}):
                raise Unsupported('cipher')
            e.store(st, e.padd(ctx, 8), 8, cipherp)
        c = e.load(st, e.padd(ctx, 8), 8, True)
        if isnull(c):
            return 0
        klen = e.opts['_cipherlen'][c.obj]

        def rdbytes(p, n):
            out = []
            for i in range(n):
                b = e.load(st, e.padd(p, i), 1)
                if isinstance(b, Undef):
                    b = e.undefbyte()
                out.append((b, 8))
            return T.concat(out)
        if not isnull(key):
            v = rdbytes(key, klen)
            _und(e, v, 'the cipher key')
            e.store(st, e.padd(ctx, 16), 32, T.zext(v, klen * 8, 256) if isinstance(v, Term) else v)
            e.store(st, ctx, 4, 1)
        if not isnull(iv):
            v = rdbytes(iv, 16)
            _und(e, v, 'the initialisation vector')
            e.store(st, e.padd(ctx, 48), 16, v)
        elif not isnull(cipherp):
            e.store(st, e.padd(ctx, 48), 16, 0)
        e.store(st, e.padd(ctx, 4), 4, 0)
        return 1

    def _und(e, v, what):
        if e.undefs and isinstance(v, Term):
            for t in T.subterms([v]):
                if t.op == 'var' and str(t.args[0]).startswith('undef!'):
                    raise PathEnd('error', 'uninitialised memory used in ' + what)
    m['EVP_EncryptInit_ex'] = init
    m['EVP_DecryptInit_ex'] = init
    m['EVP_CipherInit_ex'] = init
    m['EVP_EncryptInit'] = lambda e, st, a: init(e, st, [a[0], a[1], 0, a[2], a[3]])
    m['EVP_DecryptInit'] = m['EVP_EncryptInit']

    def update(e, st, a):
        ctx, out, outl, inp, n = a[:5]
        if not isinstance(n, int):
            alts = e.enumerate(st, n, 32, limit=300)
            if len(alts) > 1:
                raise Multi([(c, (lambda st2, k=k: update(e, st2, [ctx, out, outl, inp, k]))) for k, c in alts])
            e.assume(st, alts[0][1])
            n = alts[0][0]
        if n >> 31:
            return 0
        ok = e.load(st, ctx, 4)
        if ok != 1:
            return 0
        key = e.load(st, e.padd(ctx, 16), 32)
        iv = e.load(st, e.padd(ctx, 48), 16)
        c = e.load(st, e.padd(ctx, 8), 8, True)
        pos = e.load(st, e.padd(ctx, 4), 4)
        klen = e.opts['_cipherlen'][c.obj]
        # counter mode over an uninterpreted block cipher
        res = []
        for i in range(n):
            b = e.load(st, e.padd(inp, i), 1)
            if isinstance(b, Undef):
                raise PathEnd('error', 'uninitialised memory used as cipher input')
            _und(e, b, 'the cipher input')
            k = pos + i
            ctr = T.bvbin('add', iv, k // 16, 128)
            s = T.extract(T.aesblock(klen, key, ctr), 127 - 8 * (k % 16), 120 - 8 * (k % 16))
            res.append(T.bvbin('xor', b, s, 8))
        for i, r in enumerate(res):
            e.store(st, e.padd(out, i), 1, r)
        e.store(st, e.padd(ctx, 4), 4, pos + n)
        if not isnull(outl):
            e.store(st, outl, 4, n)
        return 1
    for n in ('EVP_EncryptUpdate', 'EVP_DecryptUpdate', 'EVP_CipherUpdate'):
        m[n] = update

    def final(e, st, a):
        ok = e.load(st, a[0], 4)
        if ok != 1:
            return 0
        e.store(st, a[2], 4, 0)
        return 1
    for n in ('EVP_EncryptFinal_ex', 'EVP_DecryptFinal_ex', 'EVP_CipherFinal_ex', 'EVP_EncryptFinal', 'EVP_DecryptFinal'):
        m[n] = final
    m['ERR_get_error'] = lambda e, st, a: 0
    m['ERR_error_string'] = lambda e, st, a: NULL
    m['ERR_print_errors_fp'] = lambda e, st, a: None
    m['OPENSSL_cleanse'] = lambda e, st, a: m['memset'](e, st, [a[0], 0, a[1]])
