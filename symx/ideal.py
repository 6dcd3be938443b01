"""Ideal components for the OPPRF: oblivious transfer (assume-guarantee on O01) and checksummed encryption (on A01).

The cipher is ENC(key, message), an uninterpreted positive integer; decrypting ENC(k, m) under k gives m and under a different
key 0.  128-bit random draws are non-zero and pairwise distinct, and no equation that involves a random draw holds by
accident (each happens with probability below 2^-64; the runs in question are left out)."""
import re
from . import term as T
from .term import Term
from .engine import Multi, Unsupported

CASES = {}
AES = r'^aes::AES::%s\('


def cases(v):
    """ite tree -> {leaf: condition}"""
    if not isinstance(v, Term) or v.sort != 'I':
        return {v: True}
    r = CASES.get(v)
    if r is not None:
        return r
    if v.op == 'ite':
        c = v.args[0]
        r = {}
        for side, x in ((c, v.args[1]), (T.bnot(c), v.args[2])):
            for leaf, g in cases(x).items():
                g = T.band(side, g)
                if g is False:
                    continue
                r[leaf] = T.bor(r[leaf], g) if leaf in r else g
    else:
        r = {v: True}
    CASES[v] = r
    return r


def random(t):
    """the term involves a random draw"""
    return any(x.op == 'ivar' and str(x.args[0]).startswith('draw') for x in T.subterms([t])) if isinstance(t, Term) else False


def isdraw(t):
    return isinstance(t, Term) and t.op == 'ivar' and str(t.args[0]).startswith('draw')


def keyeq(a, b):
    if a is b or (not isinstance(a, Term) and not isinstance(b, Term) and a == b):
        return True
    if isdraw(a) and isdraw(b):
        return False
    if isdraw(a) or isdraw(b):
        return False            # a fresh random value against anything that is not that value
    if isinstance(a, Term) and isinstance(b, Term) and (a.op == 'iuf') != (b.op == 'iuf'):
        return False
    return T.ieq(a, b)


def enc(k, m):
    l, h = T.irange(m)
    if l is None or l < 0:
        raise Unsupported('encryption of a possibly negative integer')
    n = (h.bit_length() + 7) // 8 if h is not None else 64
    return T.iuf('ENC', (k, m), 1, (1 << (8 * n + 40)) - 1)


def encl(k, m):
    """encryption under a tree of keys: tree of encryptions"""
    r = None
    for lk, ck in cases(k).items():
        x = enc(lk, m)
        r = x if r is None else T.iite(ck, x, r)
    return r


def generic(d, m=None, args=None):
    """polynomial in random values that is zero only by accident (modulo m): the coefficient of some product of random values is not
    zero, whatever the other values are"""
    if args is not None:
        return any(random(x) for x in args)
    by = {}
    coords = {x for k in d for x in k if x.op in ('PX', 'PY')}
    for k, c in d.items():
        key, rest = [], []
        for x in k:
            (key if isdraw(x) or len(coords) == 1 and x in coords and random(x) else rest).append(x)
        if key:
            by.setdefault(tuple(key), []).append((rest, c))
    return any(never0(co, m) for co in by.values())


def never0(co, m):
    """the polynomial [(atoms, coefficient)] in indicators has no zero"""
    if len(co) == 1 and not co[0][0]:
        return m is None or co[0][1] % m != 0
    xs = {x for rest, _ in co for x in rest}
    if len(xs) > 4 or any(x.op != 'ind' for x in xs):
        return False
    xs = sorted(xs, key=lambda x: x.id)
    for v in range(1 << len(xs)):
        on = {x for i, x in enumerate(xs) if v >> i & 1}
        t = sum(c for rest, c in co if all(x in on for x in rest))
        if (t if m is None else t % m) == 0:
            return False
    return True


def install(e):
    T.generic = generic

    def drawfn(e, st, i, kind, bound):
        if kind == 'r':
            k = e.opts.get('choose', {}).get('perm')
            if k is None:
                raise Unsupported('unexpected use of rand')
            n = st.misc.get('nrand', 0)
            st.misc['nrand'] = n + 1
            return k if (n // 2) % 2 == 0 else e.opts['choose']['perm2']
        return T.ivar('draw%d_%d' % (i, bound % 999983), 1, bound - 1)
    e.opts['drawfn'] = drawfn

    def encrypt(e, st, a):
        ret, this, k, m = a
        setz(e, st, ret, encl(e.readmpz(st, k), e.readmpz(st, m)))

    def setz(e, st, p, v):
        e.models['__gmpz_init'](e, st, [p])
        e.writempz(st, p, v)

    def decrypt(e, st, a):
        ret, this, k, c = a
        key, ct = e.readmpz(st, k), e.readmpz(st, c)
        msgs = {}
        for lk, ck in cases(key).items():
            for lc, cc in cases(ct).items():
                g = T.band(ck, cc)
                if g is False or not isinstance(lc, Term) or lc.op != 'iuf' or lc.args[0] != 'ENC':
                    continue
                q = keyeq(lk, lc.args[1])
                g = T.band(g, q)
                g = e.simp(st, g)
                if g is False or not e.feasible(st, g):
                    continue
                m = lc.args[2]
                msgs[m] = T.bor(msgs[m], g) if m in msgs else g
        hit = T.bor(*msgs.values())
        tree = None
        for m, g in msgs.items():
            tree = m if tree is None else T.iite(g, m, tree)
        if tree is None:
            return setz(e, st, ret, 0)
        if (len(msgs) > 1 or hit is not True) and any(x.op in ('PX', 'PY') for x in T.subterms(list(msgs))):
            # encoded points: one path per message
            alts, rest = [], True
            for m, g in msgs.items():
                alts.append((T.band(rest, g), lambda s, m=m: setz(e, s, ret, m)))
                rest = T.band(rest, T.bnot(g))
            raise Multi(alts + [(rest, lambda s: setz(e, s, ret, 0))])
        if not e.feasible(st, T.bnot(hit)):
            return setz(e, st, ret, tree)
        return setz(e, st, ret, T.iite(hit, tree, 0))

    for nm, f in e.mod.funcs.items():
        if f.decl:
            continue
        if re.search(AES % 'encryptCRC', f.dem):
            e.models[nm] = encrypt
        elif re.search(AES % 'decryptCRC', f.dem):
            e.models[nm] = decrypt
    e.alias = {}
    for rx, target in e.opts['redirect']:
        got = [nm for nm, f in e.mod.funcs.items() if not f.decl and re.search(rx, f.dem)]
        if len(got) != 1:
            raise Unsupported('%d functions match %s' % (len(got), rx))
        e.alias[got[0]] = target


OT = r'^ot::OT%s\('
REDIRECT = [(OT % 'recv::selectMsg', 'ideal_select'), (OT % 'recv::decryptMsg', 'ideal_decrypt'), (OT % 'recv::decryptMsgDecode', 'ideal_decode'),
            (r'^ot::OTsndr::encMsgs\(.*__gmp_expr', 'ideal_enci'), (r'^ot::OTsndr::encMsgs\((?!.*__gmp_expr)', 'ideal_enc')]
NOINLINE = [r for r, _ in REDIRECT] + [AES % 'encryptCRC', AES % 'decryptCRC']
