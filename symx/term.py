"""Hash-consed terms: Bool ('B'), bit-vectors (sort = width), mathematical integers ('I').

Constants are plain Python values (bool for Bool, int otherwise).  Constructors simplify.
Integers are kept as polynomials over atoms; `imod(P, m)` is normalised modulo m."""
import bisect
import sys

sys.setrecursionlimit(1000000)


class Term:
    __slots__ = ('op', 'args', 'sort', 'id', 'lo', 'hi', 'pd', 'aux', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_tab = {}
_next = [1]


def mk(op, args, sort, lo=None, hi=None):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.sort = sort
        t.id = _next[0]
        _next[0] += 1
        t.lo = lo
        t.hi = hi
        t.pd = None
        t.aux = None
        _tab[key] = t
    return t


def reset():
    _tab.clear()
    _lats.clear()
    _lidx.clear()
    _starts.clear()
    _bitsof.clear()
    _mz.clear()


def show(t, depth=6):
    if not isinstance(t, Term):
        return hex(t) if isinstance(t, int) and not isinstance(t, bool) and t > 99999 else str(t)
    if t.op in ('var', 'ivar', 'bvar'):
        return str(t.args[0])
    if depth == 0:
        return '#%d' % t.id
    if t.op == 'poly':
        out = []
        for m, c in t.args[:12]:
            s = '*'.join(show(a, depth - 1) for a in m)
            out.append((show(c) + ('*' + s if s else '')))
        return '(' + ' + '.join(out) + ('...' if len(t.args) > 12 else '') + ')'
    if t.op == 'lin':
        return 'lin(%s)' % ', '.join(show(a, depth - 1) for a in linatoms(t)[:10])
    return '%s(%s)' % (t.op, ', '.join(show(a, depth - 1) for a in t.args[:10]))


# ------------------------------------------------------------------ Bool
TRUE, FALSE = True, False


def bvar(name):
    return mk('bvar', (name,), 'B')


def bnot(a):
    if a is True:
        return False
    if a is False:
        return True
    if a.op == 'not':
        return a.args[0]
    if a.op == 'ige0':
        return ige0(isub(ineg(a.args[0]), 1))
    if a.op == 'and' or a.op == 'or':
        r = _neg.get(a.id)
        if r is None:
            r = (bor if a.op == 'and' else band)(*[bnot(x) for x in a.args])
            _neg[a.id] = r
            if isinstance(r, Term):
                _neg.setdefault(r.id, a)
        return r
    return mk('not', (a,), 'B')


_neg = {}


def band(*xs):
    s = {}
    st = list(xs)
    st.reverse()
    while st:
        x = st.pop()
        if x is True:
            continue
        if x is False:
            return False
        if x.op == 'and':
            st.extend(reversed(x.args))
            continue
        s[x.id] = x
    if not s:
        return True
    for x in s.values():
        if x.op == 'not':
            if x.args[0].id in s:
                return False
    # unit-absorption: and(a, or(a,..)) -> drop the or ; and(a, or(not a, r)) -> and(a, r)
    if len(s) > 1 and any(x.op == 'or' for x in s.values()):
        new = {}
        changed = False
        for k, x in s.items():
            if x.op == 'or':
                rest = []
                drop = False
                for y in x.args:
                    if y.id in s:
                        drop = True
                        break
                    n = bnot(y)
                    if isinstance(n, Term) and n.id in s:
                        changed = True
                        continue
                    rest.append(y)
                if drop:
                    changed = True
                    continue
                if len(rest) != len(x.args):
                    new[('r', k)] = bor(*rest)
                    continue
            new[k] = x
        if changed:
            return band(*new.values())
    v = sorted(s.values(), key=lambda t: t.id)
    if len(v) == 1:
        return v[0]
    return mk('and', tuple(v), 'B')


def bor(*xs):
    s = {}
    st = list(xs)
    st.reverse()
    while st:
        x = st.pop()
        if x is False:
            continue
        if x is True:
            return True
        if x.op == 'or':
            st.extend(reversed(x.args))
            continue
        s[x.id] = x
    if not s:
        return False
    for x in s.values():
        if x.op == 'not':
            if x.args[0].id in s:
                return True
        elif x.op == 'ige0':
            n = bnot(x)
            if isinstance(n, Term) and n.id in s:
                return True
    if len(s) > 1 and any(x.op == 'and' for x in s.values()):
        new = {}
        changed = False
        for k, x in s.items():
            if x.op == 'and':
                rest = []
                drop = False
                for y in x.args:
                    if y.id in s:
                        drop = True
                        break
                    n = bnot(y)
                    if isinstance(n, Term) and n.id in s:
                        changed = True
                        continue
                    rest.append(y)
                if drop:
                    changed = True
                    continue
                if len(rest) != len(x.args):
                    new[('r', k)] = band(*rest)
                    continue
            new[k] = x
        if changed:
            return bor(*new.values())
        # factor (and(x, r1) or and(not x, r1)) -> r1
        ands = [x for x in s.values() if x.op == 'and']
        if len(ands) == 2 and len(s) == 2:
            a, b = (set(y.args) for y in ands)
            common = a & b
            if common:
                ra, rb = a - common, b - common
                return band(*sorted(common, key=lambda t: t.id), bor(band(*ra), band(*rb)))
    v = sorted(s.values(), key=lambda t: t.id)
    if len(v) == 1:
        return v[0]
    return mk('or', tuple(v), 'B')


def bite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if a is True:
        return bor(c, b)
    if a is False:
        return band(bnot(c), b)
    if b is True:
        return bor(bnot(c), a)
    if b is False:
        return band(c, a)
    if c.op == 'not':
        return bite(c.args[0], b, a)
    if bnot(a) is b:
        return biff(c, a)
    return mk('bite', (c, a, b), 'B')


def biff(a, b):
    if a is b:
        return True
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return bnot(b)
    if b is False:
        return bnot(a)
    neg = False
    if a.op == 'not':
        a = a.args[0]
        neg = not neg
    if b.op == 'not':
        b = b.args[0]
        neg = not neg
    if a is b:
        return not neg
    if a.op in ('and', 'or') and bnot(a) is b:
        return neg
    if a.id > b.id:
        a, b = b, a
    r = mk('iff', (a, b), 'B')
    return bnot(r) if neg else r


def bxor(a, b):
    return bnot(biff(a, b))


# ------------------------------------------------------------------ bit-vectors
def mask(w):
    return (1 << w) - 1


def var(name, w):
    return mk('var', (name,), w)


def bvrange(a, w=None):
    if not isinstance(a, Term):
        return a, a
    if a.lo is None:
        a.lo, a.hi = _bvrange(a)
    return a.lo, a.hi


def _bvrange(a):
    w = a.sort
    op = a.op
    if w == 'B':
        return 0, 1
    if op == 'concat':
        lo = hi = 0
        left = w
        for i, (p, pw) in enumerate(a.args):
            if i == 40:
                return lo << left, hi << left | mask(left)
            l, h = bvrange(p)
            lo = (lo << pw) | l
            hi = (hi << pw) | h
            left -= pw
        return lo, hi
    if op == 'ite':
        l1, h1 = bvrange(a.args[1])
        l2, h2 = bvrange(a.args[2])
        return min(l1, l2), max(h1, h2)
    if op == 'add':
        l1, h1 = bvrange(a.args[0])
        l2, h2 = bvrange(a.args[1])
        if h1 + h2 <= mask(w):
            return l1 + l2, h1 + h2
        if l1 + l2 > mask(w):
            return l1 + l2 - (1 << w), h1 + h2 - (1 << w)
        if not isinstance(a.args[1], Term):
            # adding a "negative" constant
            d = (1 << w) - a.args[1]
            if l1 >= d:
                return l1 - d, h1 - d
    elif op == 'mul':
        l1, h1 = bvrange(a.args[0])
        l2, h2 = bvrange(a.args[1])
        if h1 * h2 <= mask(w):
            return l1 * l2, h1 * h2
    elif op == 'udiv':
        l1, h1 = bvrange(a.args[0])
        b = a.args[1]
        if not isinstance(b, Term) and b:
            return l1 // b, h1 // b
    elif op == 'urem':
        b = a.args[1]
        l1, h1 = bvrange(a.args[0])
        if not isinstance(b, Term) and b:
            if h1 < b:
                return l1, h1
            return 0, b - 1
    elif op == 'and':
        return 0, min(bvrange(a.args[0])[1], bvrange(a.args[1])[1])
    elif op == 'lshr':
        if not isinstance(a.args[1], Term):
            l1, h1 = bvrange(a.args[0])
            return l1 >> a.args[1], h1 >> a.args[1]
        return 0, bvrange(a.args[0])[1]
    elif op == 'i2b':
        l, h = irange(a.args[0])
        if l is not None and h is not None and l >= 0 and h <= mask(w):
            return l, h
    elif op == 'select':
        tb = a.args[0]
        return min(tb), max(tb)
    elif op == 'var' and a.aux:
        return a.aux
    return 0, mask(w)


def parts(a, w):
    """concat view, most significant first"""
    if isinstance(a, Term) and a.op == 'concat':
        return a.args
    return ((a, w),)


def concat(ps):
    """ps: [(value,width)] msb first"""
    out = []
    for p, pw in ps:
        if pw == 0:
            continue
        if isinstance(p, Term) and p.op == 'concat':
            for q in p.args:
                _push(out, q)
        else:
            _push(out, (p, pw))
    w = sum(x[1] for x in out)
    if len(out) == 1:
        return out[0][0]
    return mk('concat', tuple(out), w)


def _push(out, q):
    p, pw = q
    if out:
        l, lw = out[-1]
        if not isinstance(l, Term) and not isinstance(p, Term):
            out[-1] = ((l << pw) | p, lw + pw)
            return
        if isinstance(l, Term) and isinstance(p, Term) and l.op == 'extract' and p.op == 'extract' \
                and l.args[0] is p.args[0] and l.args[2] == p.args[1] + 1:
            out[-1] = (extract(l.args[0], l.args[1], p.args[2]), lw + pw)
            return
    out.append((p, pw))


_starts = {}


def extract(a, hi, lo):
    w = hi - lo + 1
    if not isinstance(a, Term):
        return (a >> lo) & mask(w)
    if lo == 0 and w == a.sort:
        return a
    op = a.op
    if op == 'concat':
        pos = a.sort
        out = []
        ps = a.args
        if len(ps) > 32:
            st = _starts.get(a.id)
            if st is None:
                st, q = [], 0
                for p, pw in ps:
                    st.append(q)
                    q += pw
                _starts[a.id] = st
            i = bisect.bisect_right(st, pos - 1 - hi) - 1
            j = bisect.bisect_right(st, pos - 1 - lo)
            pos -= st[i]
            ps = ps[i:j]
        for p, pw in ps:
            ph = pos - 1
            pl = pos - pw
            pos = pl
            if pl > hi or ph < lo:
                continue
            h = min(ph, hi) - pl
            l = max(pl, lo) - pl
            out.append((extract(p, h, l) if (h, l) != (pw - 1, 0) else p, h - l + 1))
        return concat(out)
    if op == 'extract':
        return extract(a.args[0], hi + a.args[2], lo + a.args[2])
    if op == 'ite':
        x, y = a.args[1], a.args[2]
        if not isinstance(x, Term) or not isinstance(y, Term) or x.op in ('concat', 'ite') or y.op in ('concat', 'ite'):
            return ite(a.args[0], extract(x, hi, lo), extract(y, hi, lo), w)
    if op in ('and', 'or', 'xor'):
        return bvbin(op, extract(a.args[0], hi, lo), extract(a.args[1], hi, lo), w)
    if op in ('add', 'sub', 'mul') and lo == 0:
        return bvbin(op, extract(a.args[0], hi, 0), extract(a.args[1], hi, 0), w)
    if op == 'sext':
        iw = a.args[0].sort
        if hi < iw:
            return extract(a.args[0], hi, lo)
        if lo == 0:
            return sext(a.args[0], iw, w)
    if op == 'i2b' and lo == 0:
        return i2b(a.args[0], w)
    if op == 'lin':
        return mklin(a.args[0][lo:hi + 1])
    if op == 'select':
        return select(tuple((v >> lo) & mask(w) for v in a.args[0]), a.args[1], w)
    return mk('extract', (a, hi, lo), w)


def zext(a, fw, tw):
    if not isinstance(a, Term):
        return a
    if a.sort == 'B':
        return ite(a, 1, 0, tw)
    if a.op == 'ite' and not (isinstance(a.args[1], Term) and isinstance(a.args[2], Term)):
        return ite(a.args[0], zext(a.args[1], fw, tw), zext(a.args[2], fw, tw), tw)
    if fw == tw:
        return a
    return concat([(0, tw - fw), (a, fw)])


def sext(a, fw, tw):
    if not isinstance(a, Term):
        if a >> (fw - 1) & 1:
            return a | (mask(tw) ^ mask(fw))
        return a
    if a.sort == 'B':
        return ite(a, mask(tw), 0, tw)
    if fw == tw:
        return a
    lo, hi = bvrange(a)
    if hi < 1 << (fw - 1):
        return zext(a, fw, tw)
    if a.op == 'ite' and not (isinstance(a.args[1], Term) and isinstance(a.args[2], Term)):
        return ite(a.args[0], sext(a.args[1], fw, tw), sext(a.args[2], fw, tw), tw)
    if a.op == 'sext':
        return sext(a.args[0], a.args[0].sort, tw)
    return mk('sext', (a,), tw)


def trunc(a, fw, tw):
    if tw == 1:
        b = extract(a, 0, 0)
        return bool2i(bv2bool(b))
    return extract(a, tw - 1, 0)


def bv2bool(b):
    """1-bit vector -> Bool"""
    if not isinstance(b, Term):
        return bool(b)
    return eq(b, 1, 1)


def bool2i(b):
    """Bool -> i1 register representation"""
    if b is True:
        return 1
    if b is False:
        return 0
    return b


def ite(c, a, b, w):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (not isinstance(a, Term) and not isinstance(b, Term) and a == b):
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a, w)
    if w == 'B':
        return bite(c, a, b)
    if w >= 16 and (c.op == 'iff' or c.op == 'eq' and isinstance(c.args[0], Term) and c.args[0].sort == 1 and not isinstance(c.args[1], Term)):
        # conditional addition of a polynomial: affine over GF(2)
        r = _condxor(c, a, b, w)
        if r is not None:
            return r
    if isinstance(a, Term) and a.op == 'ite':
        if a.args[0] is c:
            return ite(c, a.args[1], b, w)
    if isinstance(b, Term) and b.op == 'ite':
        if b.args[0] is c:
            return ite(c, a, b.args[2], w)
        if b.args[1] is a or (not isinstance(a, Term) and not isinstance(b.args[1], Term) and a == b.args[1]):
            return ite(bor(c, b.args[0]), a, b.args[2], w)
    if isinstance(a, Term) and a.op == 'ite' and (
            a.args[2] is b or (not isinstance(b, Term) and not isinstance(a.args[2], Term) and b == a.args[2])):
        return ite(band(c, a.args[0]), a.args[1], b, w)
    return mk('ite', (c, a, b), w)


def _linlike(x):
    return not isinstance(x, Term) or x.op in ('lin', 'xor', 'concat')


def _linparts(x):
    if not isinstance(x, Term) or x.op == 'lin':
        return True
    return x.op == 'concat' and all(pw == 1 or not isinstance(p, Term) or p.op == 'lin' for p, pw in x.args)


def _haslin(x):
    return isinstance(x, Term) and (x.op == 'lin' or x.op == 'concat' and any(isinstance(p, Term) and p.op == 'lin' and pw > 1 for p, pw in x.args))


def _condxor(c, a, b, w):
    if not _linlike(a) or not _linlike(b):
        return None
    la, lb = tolin(a, w), tolin(b, w)
    d = linxor(la, lb)
    if max(d) > 1:
        return None
    m = sum(x << i for i, x in enumerate(d))
    if bin(m).count('1') < 6 or (m + (m & -m)) & m == 0:
        return None
    k = tolin(c, 1)[0]
    return mklin([y ^ k if x else y for x, y in zip(d, lb)])


def _sgn(a, w):
    return a - (1 << w) if a >> (w - 1) & 1 else a


def _ispart(x):
    return isinstance(x, Term) and x.op == 'concat'


def _segments(a, b, w):
    """align two values into common segments -> [(pa,pb,width)] msb first"""
    pa = list(parts(a, w))
    pb = list(parts(b, w))
    cuts = set()
    pos = w
    for p, pw in pa:
        pos -= pw
        cuts.add(pos)
    pos = w
    for p, pw in pb:
        pos -= pw
        cuts.add(pos)
    cuts = sorted(cuts, reverse=True)
    out = []
    hi = w
    for c in cuts:
        out.append((extract(a, hi - 1, c), extract(b, hi - 1, c), hi - c))
        hi = c
    return out


def bvbin(op, a, b, w):
    ca = not isinstance(a, Term)
    cb = not isinstance(b, Term)
    if w == 1:
        # i1 arithmetic on Bools
        A = bool(a) if ca else a
        B = bool(b) if cb else b
        if not ca and a.sort == 1:
            A = bv2bool(a)
        if not cb and b.sort == 1:
            B = bv2bool(b)
        if op == 'and' or op == 'mul':
            return bool2i(band(A, B))
        if op == 'or':
            return bool2i(bor(A, B))
        if op in ('xor', 'add', 'sub'):
            return bool2i(bxor(A, B))
        raise NotImplementedError('i1 ' + op)
    m = mask(w)
    if ca and cb:
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & m if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (_sgn(a, w) >> min(b, w - 1)) & m
        if op == 'udiv':
            return a // b if b else m
        if op == 'urem':
            return a % b if b else a
        if op in ('sdiv', 'srem'):
            x, y = _sgn(a, w), _sgn(b, w)
            if y == 0:
                return (m if x >= 0 else 1) if op == 'sdiv' else a
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return (q if op == 'sdiv' else x - q * y) & m
        raise NotImplementedError(op)
    if op in ('add', 'mul', 'and', 'or', 'xor'):
        if ca or (not cb and a.id > b.id):
            a, b = b, a
            ca, cb = cb, ca
    if cb:
        if op == 'add':
            if b == 0:
                return a
            if a.op == 'add' and not isinstance(a.args[1], Term):
                return bvbin('add', a.args[0], (a.args[1] + b) & m, w)
            if a.op == 'ite' and not isinstance(a.args[1], Term) and not isinstance(a.args[2], Term):
                return ite(a.args[0], bvbin('add', a.args[1], b, w), bvbin('add', a.args[2], b, w), w)
            if a.op == 'concat':
                r = _disjoint_or(a, b, w)
                if r is not None:
                    return r
        elif op == 'sub':
            return bvbin('add', a, (-b) & m, w)
        elif op == 'mul':
            if b == 0:
                return 0
            if b == 1:
                return a
            if b & (b - 1) == 0:
                return bvbin('shl', a, b.bit_length() - 1, w)
            if a.op == 'ite' and not isinstance(a.args[1], Term) and not isinstance(a.args[2], Term):
                return ite(a.args[0], bvbin('mul', a.args[1], b, w), bvbin('mul', a.args[2], b, w), w)
        elif op == 'and':
            if b == 0:
                return 0
            if b == m:
                return a
            if a.op == 'and' and not isinstance(a.args[1], Term):
                return bvbin('and', a.args[0], a.args[1] & b, w)
            if a.op == 'ite' and (not isinstance(a.args[1], Term) or not isinstance(a.args[2], Term)):
                return ite(a.args[0], bvbin('and', a.args[1], b, w), bvbin('and', a.args[2], b, w), w)
            # runs of ones
            runs = _runs(b, w)
            if len(runs) <= 9:
                out = []
                for bit, hi, lo in runs:
                    out.append((extract(a, hi, lo) if bit else 0, hi - lo + 1))
                return concat(out)
        elif op == 'or':
            if b == 0:
                return a
            if b == m:
                return m
            if a.op == 'ite' and not isinstance(a.args[1], Term) and not isinstance(a.args[2], Term):
                return ite(a.args[0], bvbin('or', a.args[1], b, w), bvbin('or', a.args[2], b, w), w)
            runs = _runs(b, w)
            if len(runs) <= 9:
                out = []
                for bit, hi, lo in runs:
                    out.append((mask(hi - lo + 1) if bit else extract(a, hi, lo), hi - lo + 1))
                return concat(out)
        elif op == 'xor':
            if b == 0:
                return a
            if a.op == 'lin':
                return mklin([r ^ (b >> i & 1) for i, r in enumerate(a.args[0])])
            if a.op == 'xor' and not isinstance(a.args[1], Term):
                return bvbin('xor', a.args[0], a.args[1] ^ b, w)
            if a.op == 'ite' and not isinstance(a.args[1], Term) and not isinstance(a.args[2], Term):
                return ite(a.args[0], bvbin('xor', a.args[1], b, w), bvbin('xor', a.args[2], b, w), w)
            if a.op == 'concat':
                pos = w
                out = []
                for p, pw in a.args:
                    pos -= pw
                    out.append((bvbin('xor', p, (b >> pos) & mask(pw), pw) if pw > 1 or not isinstance(p, Term)
                                else mk('xor', (p, 1), 1) if (b >> pos) & 1 else p, pw))
                return concat(out)
        elif op == 'shl':
            if b >= w:
                return 0
            if b == 0:
                return a
            return concat([(extract(a, w - 1 - b, 0), w - b), (0, b)])
        elif op == 'lshr':
            if b >= w:
                return 0
            if b == 0:
                return a
            return concat([(0, b), (extract(a, w - 1, b), w - b)])
        elif op == 'ashr':
            if b == 0:
                return a
            if bvrange(a)[1] < 1 << (w - 1):
                return bvbin('lshr', a, b, w)
            b = min(b, w - 1)
            return sext(extract(a, w - 1, b), w - b, w)
        elif op == 'udiv':
            if b == 1:
                return a
            if b and b & (b - 1) == 0:
                return bvbin('lshr', a, b.bit_length() - 1, w)
            if b and bvrange(a)[1] < b:
                return 0
        elif op == 'urem':
            if b == 1:
                return 0
            if b and b & (b - 1) == 0:
                return bvbin('and', a, b - 1, w)
            if b and bvrange(a)[1] < b:
                return a
        elif op == 'sdiv':
            if bvrange(a)[1] < 1 << (w - 1) and b < 1 << (w - 1):
                return bvbin('udiv', a, b, w)
        elif op == 'srem':
            if bvrange(a)[1] < 1 << (w - 1) and b < 1 << (w - 1):
                return bvbin('urem', a, b, w)
    if ca:
        if op == 'sub' and a == 0 and isinstance(b, Term) and b.op == 'ite' and not isinstance(b.args[1], Term) \
                and not isinstance(b.args[2], Term):
            return ite(b.args[0], (-b.args[1]) & m, (-b.args[2]) & m, w)
        if op in ('shl', 'lshr', 'udiv', 'urem') and a == 0:
            return 0
    if a is b:
        if op in ('and', 'or'):
            return a
        if op in ('xor', 'sub'):
            return 0
    if op in ('or', 'xor', 'add') and (_ispart(a) or _ispart(b)):
        r = _disjoint_or(a, b, w)
        if r is not None:
            return r
    if op == 'and' and _ispart(a) and _ispart(b):
        segs = _segments(a, b, w)
        return concat([(_bw('and', x, y, pw), pw) for x, y, pw in segs])
    if op == 'xor' and (_ispart(a) or _ispart(b)):
        if w > 1 and _linparts(a) and _linparts(b) and (_haslin(a) or _haslin(b)):
            return mklin(linxor(tolin(a, w), tolin(b, w)))
        segs = _segments(a, b, w)
        return concat([(_bw('xor', x, y, pw), pw) for x, y, pw in segs])
    if op == 'or' and (_ispart(a) or _ispart(b)):
        segs = _segments(a, b, w)
        if any((not isinstance(x, Term)) or (not isinstance(y, Term)) for x, y, pw in segs):
            return concat([(_bw('or', x, y, pw), pw) for x, y, pw in segs])
    if op == 'xor' and (_islin(a) or _islin(b)):
        return mklin(linxor(tolin(a, w), tolin(b, w)))
    if op == 'xor':
        # cancel a ^ (a ^ b)
        fa = _xorset(a)
        fb = _xorset(b)
        if len(fa) + len(fb) <= 64 and (fa & fb):
            rest = (fa | fb) - (fa & fb)
            r = 0
            for x in sorted(rest, key=lambda t: t.id if isinstance(t, Term) else -1):
                r = bvbin('xor', r, x, w)
            return r
    if op == 'sub':
        if not ca and a.op == 'add':
            if a.args[0] is b:
                return a.args[1]
            if a.args[1] is b:
                return a.args[0]
    return mk(op, (a, b), w)


def _bw(op, x, y, pw):
    """bitwise op on 1-bit vectors too (bvbin treats width 1 as Bool)"""
    if pw > 1:
        return bvbin(op, x, y, pw)
    if op == 'xor' and (_islin(x) or _islin(y)):
        return mklin(linxor(tolin(x, 1), tolin(y, 1)))
    if not isinstance(x, Term) and not isinstance(y, Term):
        return {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
    if not isinstance(x, Term):
        x, y = y, x
    if not isinstance(y, Term):
        if op == 'and':
            return x if y else 0
        if op == 'or':
            return 1 if y else x
        if op == 'xor':
            return mk('xor', (x, 1), 1) if y else x
    if x is y:
        return 0 if op == 'xor' else x
    if x.id > y.id:
        x, y = y, x
    return mk(op, (x, y), 1)


def _xorset(a):
    s = set()
    st = [a]
    while st:
        x = st.pop()
        if isinstance(x, Term) and x.op == 'xor':
            st.extend(x.args)
        else:
            s ^= {x}
            if len(s) > 64:
                return s
    return s


def _runs(b, w):
    out = []
    i = w - 1
    while i >= 0:
        bit = b >> i & 1
        j = i
        while j > 0 and (b >> (j - 1) & 1) == bit:
            j -= 1
        out.append((bit, i, j))
        i = j - 1
    return out


def _disjoint_or(a, b, w):
    segs = _segments(a, b, w)
    out = []
    for x, y, pw in segs:
        if not isinstance(x, Term) and x == 0:
            out.append((y, pw))
        elif not isinstance(y, Term) and y == 0:
            out.append((x, pw))
        else:
            return None
    return concat(out)


def bvnot(a, w):
    return bvbin('xor', a, mask(w), w)


def eq(a, b, w):
    """-> Bool"""
    ca = not isinstance(a, Term)
    cb = not isinstance(b, Term)
    if ca and cb:
        return a == b
    if a is b:
        return True
    if ca:
        a, b = b, a
        ca, cb = cb, ca
    if a.sort == 'B':
        return biff(a, bool(b) if cb else b)
    la, ha = bvrange(a)
    lb, hb = bvrange(b)
    if ha < lb or hb < la:
        return False
    if a.op == 'ite' and (cb or not isinstance(a.args[1], Term) or not isinstance(a.args[2], Term)):
        if cb or (isinstance(b, Term) and b.op != 'ite'):
            x, y = a.args[1], a.args[2]
            if cb and (not isinstance(x, Term) or not isinstance(y, Term) or x.op == 'ite' or y.op == 'ite'):
                return bite(a.args[0], eq(x, b, w), eq(y, b, w))
    if a.op == 'concat' or (not cb and b.op == 'concat'):
        segs = _segments(a, b, w)
        if len(segs) > 1:
            return band(*[eq(x, y, pw) for x, y, pw in segs])
    if cb and a.op == 'add' and not isinstance(a.args[1], Term):
        return eq(a.args[0], (b - a.args[1]) & mask(w), w)
    if cb and a.op == 'xor' and not isinstance(a.args[1], Term):
        return eq(a.args[0], b ^ a.args[1], w)
    if w == 1 and cb:
        # one bit of a number
        x, i = (a.args[0], a.args[1]) if a.op == 'extract' else (a, 0)
        if isinstance(x, Term) and x.op == 'i2b':
            k = x.args[0]
            l, h = irange(k)
            if l is not None and h is not None and l >= 0:
                r = bitsof(k, max(h.bit_length(), i + 1))[i]
                return r if b else bnot(r)
    if cb and a.op == 'sext':
        iw = a.args[0].sort
        if sext(b & mask(iw), iw, w) != b:
            return False
        return eq(a.args[0], b & mask(iw), iw)
    if a.op == 'i2b':
        l, h = irange(a.args[0])
        if l is not None and h is not None and 0 <= l and h <= mask(w):
            if cb:
                return ieq(a.args[0], b)
            if b.op == 'i2b':
                l, h = irange(b.args[0])
                if l is not None and h is not None and 0 <= l and h <= mask(w):
                    return ieq(a.args[0], b.args[0])
    if _islin(a) or _islin(b):
        return lineq(linxor(tolin(a, w), tolin(b, w)))
    if w == 1 and cb and b == 0:
        return bnot(eq(a, 1, 1))
    if not cb and a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), 'B')


def ult(a, b, w):
    ca = not isinstance(a, Term)
    cb = not isinstance(b, Term)
    if ca and cb:
        return a < b
    if a is b:
        return False
    if (not ca and a.sort == 'B') or (not cb and b.sort == 'B'):
        return band(bnot(bool(a) if ca else a), bool(b) if cb else b)
    la, ha = bvrange(a)
    lb, hb = bvrange(b)
    if ha < lb:
        return True
    if la >= hb:
        return False
    if cb and a.op == 'ite' and (not isinstance(a.args[1], Term) or not isinstance(a.args[2], Term)):
        return bite(a.args[0], ult(a.args[1], b, w), ult(a.args[2], b, w))
    if ca and b.op == 'ite' and (not isinstance(b.args[1], Term) or not isinstance(b.args[2], Term)):
        return bite(b.args[0], ult(a, b.args[1], w), ult(a, b.args[2], w))
    if cb and b == 1:
        return eq(a, 0, w)
    # strip common leading zero parts
    if not ca and a.op == 'concat' and not isinstance(a.args[0][0], Term) and a.args[0][0] == 0:
        zw = a.args[0][1]
        if hb >> (w - zw) == 0:
            return ult(extract(a, w - zw - 1, 0), extract(b, w - zw - 1, 0), w - zw)
    if not cb and b.op == 'concat' and not isinstance(b.args[0][0], Term) and b.args[0][0] == 0:
        zw = b.args[0][1]
        if ha >> (w - zw) == 0:
            return ult(extract(a, w - zw - 1, 0), extract(b, w - zw - 1, 0), w - zw)
    if ((not ca and a.op == 'i2b') or (not cb and b.op == 'i2b')):
        A, B = b2i(a, w), b2i(b, w)
        return ilt(A, B)
    return mk('ult', (a, b), 'B')


def slt(a, b, w):
    ca = not isinstance(a, Term)
    cb = not isinstance(b, Term)
    if ca and cb:
        return _sgn(a, w) < _sgn(b, w)
    if a is b:
        return False
    h = 1 << (w - 1)
    la, ha = bvrange(a)
    lb, hb = bvrange(b)
    if ha < h and hb < h:
        return ult(a, b, w)
    if la >= h and lb >= h:
        return ult(a, b, w)
    if la >= h and hb < h:
        return True
    if ha < h and lb >= h:
        return False
    if cb and a.op == 'ite' and (not isinstance(a.args[1], Term) or not isinstance(a.args[2], Term)):
        return bite(a.args[0], slt(a.args[1], b, w), slt(a.args[2], b, w))
    if cb and b == 0:
        return eq(extract(a, w - 1, w - 1), 1, 1)
    if a is not None and not ca and a.op == 'sext' and cb:
        iw = a.args[0].sort
        if -(1 << (iw - 1)) <= _sgn(b, w) < (1 << (iw - 1)):
            return slt(a.args[0], b & mask(iw), iw)
    return mk('slt', (a, b), 'B')


def ule(a, b, w):
    return bnot(ult(b, a, w))


def sle(a, b, w):
    return bnot(slt(b, a, w))


_affine = {}


def affine(table):
    """(const, masks per index bit) when the table is affine over GF(2), else None"""
    r = _affine.get(table)
    if r is None:
        r = False
        n = len(table)
        if n >= 2 and n & (n - 1) == 0:
            c = table[0]
            ms = [table[1 << i] ^ c for i in range(n.bit_length() - 1)]
            for i in range(n):
                v = c
                for k, m in enumerate(ms):
                    if i >> k & 1:
                        v ^= m
                if v != table[i]:
                    break
            else:
                r = (c, ms)
        _affine[table] = r
    return r or None


_tables = {}


def select(table, idx, w):
    """table: tuple of ints, idx: BV term (any width)"""
    if not isinstance(idx, Term):
        return table[idx]
    x = _tables.get(id(table))
    if x is None or x[0] is not table:
        x = _tables[id(table)] = table, len(set(table)) == 1, affine(table)
        if len(_tables) > 5000:
            _tables.clear()
    if x[1]:
        return table[0]
    af = x[2]
    if af and bvrange(idx)[1] < len(table):
        c, ms = af
        rows = [c >> i & 1 for i in range(w)]
        for x, m in zip(tolin(idx, idx.sort), ms):
            if x:
                while m:
                    l = m & -m
                    rows[l.bit_length() - 1] ^= x
                    m ^= l
        return mklin(rows)
    return mk('select', (table, idx), w)


used_lin = False


# a word as an affine combination over GF(2), one integer per bit: bit 0 the constant, bit i+1 the i-th atom (a single bit)
_lats = []
_lidx = {}


def latom(t):
    i = _lidx.get(t.id)
    if i is None:
        _lats.append(t)
        i = _lidx[t.id] = len(_lats)
    return 1 << i


def rowatoms(r):
    r >>= 1
    out = []
    while r:
        l = r & -r
        out.append(_lats[l.bit_length() - 1])
        r ^= l
    return out


def linatoms(t):
    r = 0
    for x in t.args[0]:
        r |= x
    return rowatoms(r)


def mklin(rows):
    w = len(rows)
    for r in rows:
        if r > 1:
            break
    else:
        c = 0
        for i, r in enumerate(rows):
            c |= r << i
        return c
    if w == 1:
        r = rows[0]
        if not r & 1 and r & r - 1 == 0:
            return _lats[r.bit_length() - 2]
    global used_lin
    used_lin = True
    return mk('lin', (tuple(rows),), w)


def tolin(a, w):
    """-> rows, the lowest bit first"""
    if not isinstance(a, Term):
        return [a >> i & 1 for i in range(w)]
    if a.op == 'lin':
        return a.args[0]
    if a.op == 'concat':
        out = []
        for p, pw in reversed(a.args):
            out.extend(tolin(p, pw))
        return out
    if a.op == 'xor' and isinstance(a.sort, int):
        return linxor(tolin(a.args[0], w), tolin(a.args[1], w))
    if a.sort == 'B':
        if a.op == 'not':
            return [tolin(a.args[0], 1)[0] ^ 1]
        if a.op == 'iff':
            return [tolin(a.args[0], 1)[0] ^ tolin(a.args[1], 1)[0] ^ 1]
        if a.op == 'eq' and isinstance(a.args[0], Term) and a.args[0].sort == 1 and not isinstance(a.args[1], Term):
            return [tolin(a.args[0], 1)[0] ^ 1 ^ a.args[1]]
        return [latom(a)]
    if w == 1:
        return [latom(a)]
    out = []
    for i in range(w):
        x = extract(a, i, i)
        if not isinstance(x, Term):
            out.append(x)
        elif x.op in ('lin', 'xor', 'concat'):
            out.extend(tolin(x, 1))
        else:
            out.append(latom(x))
    return out


def linxor(x, y):
    return [p ^ q for p, q in zip(x, y)]


def _islin(a):
    return isinstance(a, Term) and a.op == 'lin'


def reduce_rows(rows):
    """rows to reduced echelon form, None when inconsistent"""
    basis = {}
    for r in rows:
        while r > 1:
            p = r.bit_length()
            if p in basis:
                r ^= basis[p]
            else:
                basis[p] = r
                break
        else:
            if r:
                return None
    for p in sorted(basis):
        r = basis[p]
        m = (r & ~(1 << p - 1)) >> 1 << 1
        while m:
            q = m.bit_length()
            m ^= 1 << q - 1
            if q in basis:
                r ^= basis[q]
        basis[p] = r
    return [basis[p] for p in sorted(basis)]


def rowbool(r):
    """the row is zero"""
    x = mklin([r & ~1])
    if x.sort == 'B':
        b = x
    else:
        b = eq(x, 1, 1) if not _islin(x) else mk('eq', (x, 1), 'B')
    return b if r & 1 else bnot(b)


def lineq(rows):
    """all rows zero as a Bool: Gaussian elimination"""
    rows = reduce_rows(rows)
    if rows is None:
        return False
    return band(*[rowbool(r) for r in rows])


def eliminate(fs):
    """Gaussian elimination over the linear literals of a conjunction -> conjuncts, None when inconsistent"""
    eqs, rest = [], []
    fs = list(fs)
    while fs:
        f = fs.pop()
        if f is False:
            return None
        if isinstance(f, Term):
            if f.op == 'and':
                fs.extend(f.args)
                continue
            g = f.args[0] if f.op == 'not' else f
            if g.op == 'iff' or g.op == 'eq' and isinstance(g.args[0], Term) and g.args[0].sort == 1:
                eqs.append(tolin(f, 1)[0] ^ 1)
                continue
            if f.op == 'ult' and not isinstance(f.args[1], Term) and f.args[1] and f.args[1] & (f.args[1] - 1) == 0:
                # the high bits are zero
                x = f.args[0]
                fs.append(eq(extract(x, x.sort - 1, f.args[1].bit_length() - 1), 0, x.sort + 1 - f.args[1].bit_length()))
                continue
            if f.op == 'not' and g.op == 'ult' and not isinstance(g.args[0], Term) and g.args[0] & (g.args[0] + 1) == 0:
                x = g.args[1]
                k = g.args[0].bit_length()
                fs.append(eq(extract(x, x.sort - 1, k), 0, x.sort - k))
                continue
            if f.op == 'eq' and isinstance(f.args[0], Term) and isinstance(f.args[0].sort, int) and f.args[0].sort <= 64:
                w = f.args[0].sort
                eqs.extend(linxor(tolin(f.args[0], w), tolin(f.args[1], w)))
                continue
        rest.append(f)
    rows = reduce_rows(eqs)
    if rows is None:
        return None
    return rest + [rowbool(r) for r in rows]


# ------------------------------------------------------------------ integers
INF = None


def ivar(name, lo=None, hi=None):
    t = mk('ivar', (name,), 'I')
    if t.aux is True and (t.lo, t.hi) != (lo, hi):
        raise AssertionError('two bounds for ' + name)
    t.lo, t.hi = lo, hi
    t.aux = True
    return t


def iuf(name, args, lo=None, hi=None):
    t = mk('iuf', (name,) + tuple(args), 'I')
    t.lo, t.hi = lo, hi
    t.aux = True
    return t


def aesblock(klen, key, ctr):
    """the block cipher: uninterpreted unless both arguments are known"""
    if not isinstance(key, Term) and not isinstance(ctr, Term):
        from . import aesref
        return aesref.block(klen, key, ctr)
    return mk('bvuf', ('AES%d' % klen, key, ctr), 128)


generic = None      # whether a polynomial is zero only by accident (set by symx.ideal)


def buf(name, args):
    if generic is not None and name in ('YEQ', 'X0') and generic(None, args=args):
        return False
    return mk('buf', (name,) + tuple(args), 'B')


def irange(a):
    if not isinstance(a, Term):
        return a, a
    if a.aux is None:
        a.aux = True
        a.lo, a.hi = _irange(a)
    return a.lo, a.hi


def _rmul(a, b):
    (l1, h1), (l2, h2) = a, b
    if (l1, h1) == (0, 0) or (l2, h2) == (0, 0):
        return 0, 0
    if None in (l1, h1, l2, h2):
        if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
            return l1 * l2, None if (h1 is None or h2 is None) else h1 * h2
        return None, None
    c = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
    return min(c), max(c)


def _polyrange(d):
    lo = hi = 0
    for m, c in d.items():
        r = (1, 1)
        i = 0
        n = len(m)
        while i < n:
            a = m[i]
            j = i
            while j < n and m[j] is a:
                j += 1
            ra = irange(a)
            e = j - i
            if e % 2 == 0:
                l, h = ra
                if l is None or h is None:
                    q = (0, None)
                else:
                    mx = max(abs(l), abs(h)) ** e
                    mn = 0 if l <= 0 <= h else min(abs(l), abs(h)) ** e
                    q = (mn, mx)
                r = _rmul(r, q)
            else:
                for _ in range(e):
                    r = _rmul(r, ra)
            i = j
        r = _rmul(r, (c, c))
        lo = None if lo is None or r[0] is None else lo + r[0]
        hi = None if hi is None or r[1] is None else hi + r[1]
        if lo is None and hi is None:
            return None, None
    return lo, hi


def _irange(a):
    op = a.op
    if op == 'poly':
        return _polyrange(P(a))
    if op == 'imod':
        return 0, a.args[1] - 1
    if op == 'ite':
        l1, h1 = irange(a.args[1])
        l2, h2 = irange(a.args[2])
        return (None if l1 is None or l2 is None else min(l1, l2)), (None if h1 is None or h2 is None else max(h1, h2))
    if op == 'idiv':
        l, h = irange(a.args[0])
        m = a.args[1]
        return (None if l is None else l // m), (None if h is None else h // m)
    if op == 'b2i':
        return bvrange(a.args[0])
    if op == 'ind':
        return 0, 1
    if op in ('inv', 'powm'):
        return 0, a.args[-1] - 1
    return None, None


EMPTY = ()


def P(a):
    """polynomial dict of an integer value (do not mutate)"""
    if not isinstance(a, Term):
        return {EMPTY: a} if a else {}
    if a.op == 'poly':
        if a.pd is None:
            a.pd = dict(a.args)
        return a.pd
    if a.pd is None:
        a.pd = {(a,): 1}
    return a.pd


def _mkey(item):
    m = item[0]
    return (len(m), [x.id for x in m])


def mkpoly(d):
    if not d:
        return 0
    if len(d) == 1:
        (m, c), = d.items()
        if m == EMPTY:
            return c
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=_mkey))
    t = mk('poly', items, 'I')
    if t.pd is None:
        t.pd = dict(d)
    return t


def padd(d1, d2, k=1):
    r = dict(d1)
    for m, c in d2.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    if len(m1) == 1 and len(m2) == 1:
        a, b = m1[0], m2[0]
        if a is b:
            if a.op == 'ind':
                return m1
            return (a, a)
        return (a, b) if a.id < b.id else (b, a)
    out = []
    last = None
    for x in sorted(m1 + m2, key=lambda t: t.id):
        if x is last and x.op == 'ind':
            continue
        out.append(x)
        last = x
    return tuple(out)


class TooBig(Exception):
    pass


MAXPOLY = 60000


def pmul(d1, d2, m=None):
    if len(d1) > len(d2):
        d1, d2 = d2, d1
    if len(d1) * len(d2) > MAXPOLY * 4:
        raise TooBig()
    r = {}
    for m1, c1 in d1.items():
        for m2, c2 in d2.items():
            k = mmul(m1, m2)
            v = r.get(k, 0) + c1 * c2
            if m:
                v %= m
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > MAXPOLY:
        raise TooBig()
    return r


def iadd(a, b):
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a + b
    if not isinstance(b, Term) and b == 0:
        return a
    if not isinstance(a, Term) and a == 0:
        return b
    return mkpoly(padd(P(a), P(b)))


def isub(a, b):
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a - b
    if not isinstance(b, Term) and b == 0:
        return a
    return mkpoly(padd(P(a), P(b), -1))


def ineg(a):
    if not isinstance(a, Term):
        return -a
    return mkpoly({m: -c for m, c in P(a).items()})


def imul(a, b):
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a * b
    if not isinstance(a, Term):
        a, b = b, a
    if not isinstance(b, Term):
        if b == 0:
            return 0
        if b == 1:
            return a
        return mkpoly({m: c * b for m, c in P(a).items()})
    return mkpoly(pmul(P(a), P(b)))


def ind(b):
    """0/1 integer of a Bool"""
    if b is True:
        return 1
    if b is False:
        return 0
    if b.op == 'not':
        return isub(1, ind(b.args[0]))
    if b.op == 'and' and len(b.args) <= 3:
        r = 1
        for x in b.args:
            r = imul(r, ind(x))
        return r
    if b.op == 'or' and len(b.args) <= 2 and all(x.op not in ('and', 'or', 'bite') for x in b.args):
        r = 1
        for x in b.args:
            r = imul(r, isub(1, ind(x)))
        return isub(1, r)
    return mk('ind', (b,), 'I')


def iite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (not isinstance(a, Term) and not isinstance(b, Term) and a == b):
        return a
    if c.op == 'not':
        return iite(c.args[0], b, a)
    if isinstance(a, Term) and a.op == 'ite' and a.args[0] is c:
        return iite(c, a.args[1], b)
    if isinstance(b, Term) and b.op == 'ite' and b.args[0] is c:
        return iite(c, a, b.args[2])
    if not isinstance(a, Term) and not isinstance(b, Term) and a + b == 1 and a * b == 0:
        return ind(c) if a else isub(1, ind(c))
    # both are residues of one modulus: stay in normal form
    m = _commonmod(a, b)
    if m is not None:
        i = ind(c)
        try:
            return imod(iadd(imul(i, _unmod(a, m)), imul(isub(1, i), _unmod(b, m))), m)
        except TooBig:
            pass
    if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op and a.op in ('PX', 'PY'):
        if a.args[1:] == b.args[1:]:
            from . import group
            return _pxy(a.op, group.gite(c, a.args[0], b.args[0], group.CURVES[a.args[1]]), a.args[1:])
    elif (isinstance(a, Term) and a.op in ('PX', 'PY')) != (isinstance(b, Term) and b.op in ('PX', 'PY')):
        from . import group
        r = group.iitecoord(c, a, b)
        if r is not None:
            return r
    return mk('ite', (c, a, b), 'I')


def _pxy(op, m, rest):
    from . import group
    return group.mkcoord(op, m, rest)


def _unmod(a, m):
    if isinstance(a, Term) and a.op == 'imod' and a.args[1] == m:
        return a.args[0]
    return a


def _commonmod(a, b):
    m = None
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Term) and x.op == 'imod':
            m = x.args[1]
            l, h = irange(y)
            if l is not None and h is not None and l >= 0 and h < m:
                return m
    return None


_primes = {}


def isprime(n):
    r = _primes.get(n)
    if r is None:
        r = _isprime(n)
        _primes[n] = r
    return r


def _isprime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def modnorm(a, m):
    """polynomial dict, coefficients in [0,m), congruent to a modulo m"""
    d = _modnorm(P(a), m)
    return unbits(d, m) if _bitsof and len(d) > 1 else d


def unbits(d, m):
    """a complete weighted sum of the bits of k is k"""
    by = {}
    for mono in d:
        for x in mono:
            if x.op == 'ind' and x.args[0].op == 'bit':
                by[x.args[0].args[0]] = by.get(x.args[0].args[0], 0) + 1
    for k, cnt in by.items():
        bs = bitsof(k, _bitsof[k])
        n = sum(1 for b in bs if not isinstance(b, bool))
        if cnt < n or not n:
            continue
        low = next(i for i, b in enumerate(bs) if not isinstance(b, bool))
        if low or any(isinstance(b, bool) for b in bs[:n]):
            continue
        base = sum(1 << i for i, b in enumerate(bs) if b is True)
        groups = {}
        for mono, c in d.items():
            i = [x for x in mono if x.op == 'ind' and x.args[0].op == 'bit' and x.args[0].args[0] is k]
            if len(i) == 1:
                rest = list(mono)
                rest.remove(i[0])
                groups.setdefault(tuple(rest), {})[i[0].args[0].args[1]] = (mono, c)
        for rest, g in groups.items():
            if len(g) < n or 0 not in g:
                continue
            c = g[0][1]
            if all(i in g and (g[i][1] - (c << i)) % m == 0 for i in range(n)):
                for i in range(n):
                    d = {q: v for q, v in d.items() if q != g[i][0]} if i == 0 else d
                    d.pop(g[i][0], None)
                d = padd(d, pmul({rest: c}, P(isub(k, base))))
                d = {q: v % m for q, v in d.items() if v % m}
    return d


_natom = {}


def _atomnorm(x, m):
    """normal form (dict) of an atom modulo m, or None when it stands for itself"""
    op = x.op
    if op == 'imod' and x.args[1] % m == 0:
        return _modnorm(P(x.args[0]), m)
    if op == 'ite':
        try:
            i = P(ind(x.args[0]))
            A = _modnorm(P(x.args[1]), m)
            B = _modnorm(P(x.args[2]), m)
            r = padd(pmul(i, A, m), pmul(padd({EMPTY: 1}, i, -1), B, m))
            return {k: v % m for k, v in r.items() if v % m}
        except TooBig:
            return None
    return None


def _modnorm(d, m):
    todo = None
    for mono in d:
        for x in mono:
            if x.op == 'imod' or x.op == 'ite':
                todo = True
                break
        if todo:
            break
    if not todo:
        r = {}
        for k, c in d.items():
            c %= m
            if c:
                r[k] = c
        return r
    r = {}
    for mono, c in d.items():
        c %= m
        if not c:
            continue
        simple = []
        acc = None
        for x in mono:
            n = _natom.get((x, m), 0)
            if n == 0:
                n = _atomnorm(x, m) if x.op in ('imod', 'ite') else None
                _natom[(x, m)] = n
            if n is None:
                simple.append(x)
            elif acc is None:
                acc = n
            else:
                acc = pmul(acc, n, m)
        if acc is None:
            k = mono
            v = (r.get(k, 0) + c) % m
            if v:
                r[k] = v
            else:
                r.pop(k, None)
        else:
            s = tuple(simple)
            for k2, c2 in acc.items():
                k = mmul(s, k2)
                v = (r.get(k, 0) + c * c2) % m
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
    if len(r) > MAXPOLY:
        raise TooBig()
    return r


def imod(a, m):
    """a mod m in [0,m), m a positive constant"""
    if not isinstance(a, Term):
        return a % m
    l, h = irange(a)
    if l is not None and h is not None:
        if l >= 0 and h < m:
            return a
        if l // m == h // m:
            return isub(a, (l // m) * m)
    try:
        d = modnorm(a, m)
    except TooBig:
        return mk('imod', (a, m), 'I')
    p = mkpoly(d)
    if not isinstance(p, Term):
        return p % m
    l, h = irange(p)
    if l is not None and h is not None and l >= 0 and h < m:
        return p
    if p.op in ('PX', 'PY') or True:
        # -PY(k) mod p is PY(-k)
        if len(d) == 1:
            (mono, c), = d.items()
            if c == m - 1 and len(mono) == 1 and mono[0].op == 'PY':
                from . import group
                r = group.negy(mono[0], m)
                if r is not None:
                    return r
    return mk('imod', (p, m), 'I')


def idiv(a, m):
    """floor(a/m), m positive constant"""
    if m == 1:
        return a
    if not isinstance(a, Term):
        return a // m
    l, h = irange(a)
    if l is not None and h is not None and l // m == h // m:
        return l // m
    if a.op == 'poly':
        q, r = {}, {}
        for k, c in P(a).items():
            if c % m == 0:
                q[k] = c // m
            else:
                r[k] = c
        if q:
            rr = mkpoly(r)
            return iadd(mkpoly(q), idiv(rr, m))
    if a.op == 'idiv':
        return idiv(a.args[0], a.args[1] * m)
    if a.op == 'ite':
        x, y = idiv(a.args[1], m), idiv(a.args[2], m)
        if not (isinstance(x, Term) and x.op == 'idiv' and isinstance(y, Term) and y.op == 'idiv'):
            return iite(a.args[0], x, y)
    if a.op == 'b2i' and m & (m - 1) == 0:
        w = a.args[0].sort
        k = m.bit_length() - 1
        if k < w:
            return b2i(extract(a.args[0], w - 1, k), w - k)
    return mk('idiv', (a, m), 'I')


def b2i(a, w):
    """unsigned value of a bit-vector"""
    if not isinstance(a, Term):
        return a
    if a.sort == 'B':
        return ind(a)
    if a.op == 'i2b':
        l, h = irange(a.args[0])
        if l is not None and h is not None and 0 <= l and h <= mask(w):
            return a.args[0]
    if a.op == 'concat' and not isinstance(a.args[0][0], Term) and a.args[0][0] == 0:
        zw = a.args[0][1]
        return b2i(extract(a, w - zw - 1, 0), w - zw)
    if a.op == 'concat' and not isinstance(a.args[-1][0], Term) and a.args[-1][0] == 0:
        zw = a.args[-1][1]
        return imul(b2i(extract(a, w - 1, zw), w - zw), 1 << zw)
    if a.op == 'ite':
        return iite(a.args[0], b2i(a.args[1], w), b2i(a.args[2], w))
    if a.sort == 1:
        return ind(eq(a, 1, 1))
    return mk('b2i', (a,), 'I')


def compact(a):
    """sum of byte strings at disjoint places: one string"""
    if not isinstance(a, Term) or a.op != 'poly':
        return a
    parts = []
    for k, c in P(a).items():
        if len(k) != 1 or k[0].op != 'b2i' or c <= 0 or c & (c - 1):
            return a
        parts.append((c.bit_length() - 1, k[0].args[0]))
    if len(parts) < 2:
        return a
    parts.sort(key=lambda p: p[0])
    at, out = 0, []
    for lo, x in parts:
        if lo < at:
            return a
        out.append((0, lo - at))
        out.append((x, x.sort))
        at = lo + x.sort
    return b2i(concat(out[::-1]), at)


def sb2i(a, w):
    """signed value"""
    if not isinstance(a, Term):
        return _sgn(a, w)
    if a.sort == 'B':
        return ineg(ind(a))
    if bvrange(a)[1] < 1 << (w - 1):
        return b2i(a, w)
    if a.op == 'i2b':
        l, h = irange(a.args[0])
        if l is not None and h is not None and -(1 << (w - 1)) <= l and h < 1 << (w - 1):
            return a.args[0]
    if a.op == 'sext':
        return sb2i(a.args[0], a.args[0].sort)
    if a.op == 'ite':
        return iite(a.args[0], sb2i(a.args[1], w), sb2i(a.args[2], w))
    neg = slt(a, 0, w)
    return isub(b2i(a, w), imul(1 << w, ind(neg)))


def i2b(a, w):
    """a mod 2^w as a bit-vector"""
    if not isinstance(a, Term):
        return a & mask(w)
    if a.op == 'b2i':
        x = a.args[0]
        xw = x.sort
        if xw == w:
            return x
        if xw < w:
            return zext(x, xw, w)
        return extract(x, w - 1, 0)
    if a.op == 'ite':
        return ite(a.args[0], i2b(a.args[1], w), i2b(a.args[2], w), w)
    if a.op == 'ind':
        return ite(a.args[0], 1, 0, w)
    if a.op == 'poly' and all(len(k) <= 1 and (not k or k[0].op in ('b2i', 'ind')) for k in P(a)):
        r = 0
        for k, c in P(a).items():
            r = bvbin('add', r, bvbin('mul', i2b(k[0], w), c & mask(w), w) if k else c & mask(w), w)
        return r
    return mk('i2b', (a,), w)


def ige0(a):
    if not isinstance(a, Term):
        return a >= 0
    l, h = irange(a)
    if l is not None and l >= 0:
        return True
    if h is not None and h < 0:
        return False
    d = P(a)
    # divide by content
    from math import gcd
    g = 0
    for k, c in d.items():
        if k:
            g = gcd(g, c)
    if g > 1:
        e = {k: c // g for k, c in d.items() if k}
        c0 = d.get(EMPTY, 0) // g
        if c0:
            e[EMPTY] = c0
        a = mkpoly(e)
    if a.op == 'poly' and len(P(a)) <= 2:
        # single indicator: c*ind + k >= 0
        e = P(a)
        nz = [k for k in e if k]
        if len(nz) == 1 and len(nz[0]) == 1 and nz[0][0].op == 'ind':
            c, k0 = e[nz[0]], e.get(EMPTY, 0)
            return bite(nz[0][0].args[0], c + k0 >= 0, k0 >= 0)
        if len(nz) == 1 and len(nz[0]) == 1 and nz[0][0].op == 'b2i':
            c, k0 = e[nz[0]], e.get(EMPTY, 0)
            x = nz[0][0].args[0]
            if c == 1:
                return ule(-k0 & mask(x.sort), x, x.sort) if -k0 >= 0 else True
            if c == -1:
                return ule(x, k0, x.sort)
        if len(nz) == 1 and len(nz[0]) == 1 and nz[0][0].op == 'ite':
            c, k0 = e[nz[0]], e.get(EMPTY, 0)
            t = nz[0][0]
            return bite(t.args[0], ige0(iadd(imul(t.args[1], c), k0)), ige0(iadd(imul(t.args[2], c), k0)))
    return mk('ige0', (a,), 'B')


def ige(a, b):
    return ige0(isub(a, b))


def ilt(a, b):
    return ige0(isub(isub(b, a), 1))


def ieq(a, b):
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a == b
    if a is b:
        return True
    if not isinstance(a, Term):
        a, b = b, a
    la, ha = irange(a)
    lb, hb = irange(b)
    if la is not None and hb is not None and hb < la:
        return False
    if lb is not None and ha is not None and ha < lb:
        return False
    # residues
    for x, y in ((a, b), (b, a)):
        m = resmod(x)
        if m is not None:
            l, h = irange(y)
            if l is not None and h is not None and l >= 0 and h < m:
                return mz(isub(x, y), m)
    if isinstance(b, Term) and a.op in ('PX', 'PY') and a.op == b.op:
        from . import group
        return group.coordeq(a, b)
    if a.op in ('PX', 'PY') and not isinstance(b, Term):
        from . import group
        r = group.coordeqc(a, b)
        if r is not None:
            return r
    if a.op == 'ite' or (isinstance(b, Term) and b.op == 'ite'):
        if a.op != 'ite' or (isinstance(b, Term) and b.op == 'ite' and b.id > a.id):
            a, b = b, a
        x = ieq(a.args[1], b)
        y = ieq(a.args[2], b)
        return bite(a.args[0], x, y)
    d = padd(P(a), P(b), -1)
    if not d:
        return True
    if len(d) > 8 and all(len(k) == 1 and c > 0 and k[0].op == 'ind' for k, c in d.items()):
        return band(*[bnot(k[0].args[0]) for k in d])
    l, h = _polyrange(d)
    if (l is not None and l > 0) or (h is not None and h < 0):
        return False
    # a single residue and the rest in range
    ms = [k for k in d if len(k) == 1 and k[0].op == 'imod' and d[k] in (1, -1)]
    for k in ms:
        m = k[0].args[1]
        rest = {q: -c * d[k] for q, c in d.items() if q != k}
        l, h = _polyrange(rest)
        if l is not None and h is not None and l >= 0 and h < m:
            return mz(mkpoly(d), m)
    from math import gcd
    g = 0
    for k, c in d.items():
        if k:
            g = gcd(g, c)
    c0 = d.get(EMPTY, 0)
    if c0 % g:
        return False
    lead = max(d, key=lambda k: _mkey((k,)))
    if d[lead] < 0:
        g = -g
    if g != 1:
        d = {k: c // g for k, c in d.items()}
    # ind(x)=const
    nz = [k for k in d if k]
    if len(nz) == 1 and len(nz[0]) == 1:
        x = nz[0][0]
        c, k0 = d[nz[0]], -d.get(EMPTY, 0)
        if k0 % c:
            return False
        v = k0 // c
        if x.op == 'ind':
            return bite(x.args[0], v == 1, v == 0)
        if x.op == 'b2i':
            w = x.args[0].sort
            return eq(x.args[0], v, w) if 0 <= v <= mask(w) else False
    if EMPTY not in d and len(nz) > 1 and (all(c > 0 for c in d.values()) or all(c < 0 for c in d.values())) and \
            all((irange(x)[0] or -1) >= 0 or irange(x)[0] == 0 for k in nz for x in k):
        # a sum of nothing but non-negative terms
        return band(*[bor(*[ieq(x, 0) for x in set(k)]) for k in nz])
    if len(nz) == 2 and EMPTY not in d and all(len(k) == 1 and k[0].op == 'b2i' for k in nz) and \
            sorted(d[k] for k in nz) == [-1, 1]:
        x, y = nz[0][0].args[0], nz[1][0].args[0]
        w = max(x.sort, y.sort)
        return eq(zext(x, x.sort, w), zext(y, y.sort, w), w)
    if len(d) <= 64 and all(len(k) <= 1 and (not k or k[0].op in ('b2i', 'ind')) for k in d):
        # linear over bit-vectors: decide in a wide enough bit-vector
        tot = sum(abs(c) * (1 if not k else (irange(k[0])[1])) for k, c in d.items())
        w = tot.bit_length() + 1
        if w <= 4200:
            pos = neg = 0
            for k, c in d.items():
                t = bvbin('mul', i2b(k[0], w), abs(c), w) if k else abs(c)
                if c > 0:
                    pos = bvbin('add', pos, t, w)
                else:
                    neg = bvbin('add', neg, t, w)
            return eq(pos, neg, w)
    if generic is not None and generic(d):
        return False
    return mk('ieq', (mkpoly(d),), 'B')


def resmod(x):
    """modulus of a value that ranges over the residues of a large prime"""
    if not isinstance(x, Term):
        return None
    if x.op == 'imod':
        return x.args[1]
    if x.op in ('ivar', 'iuf', 'inv', 'powm'):
        h = irange(x)[1]
        if h is not None and h > 1 << 64 and irange(x)[0] in (0, 1) and isprime(h + 1):
            return h + 1
    return None


def symcoef(c, m):
    c %= m
    return c - m if c > m // 2 else c


_mz = {}


def mz(a, m):
    """a == 0 (mod m)"""
    if not isinstance(a, Term):
        return a % m == 0
    if generic is not None:
        return mz0(a, m)
    r = _mz.get((a, m))
    if r is None:
        r = _mz[a, m] = mz0(a, m)
    return r


def mz0(a, m):
    try:
        d = modnorm(a, m)
    except TooBig:
        return mk('mz', (a, m), 'B')
    if not d:
        return True
    if len(d) == 1 and EMPTY in d:
        return False
    if not any(resmod(x) == m for k in d for x in k):
        s = {k: symcoef(c, m) for k, c in d.items()}
        l, h = _polyrange(s)
        if l is not None and h is not None and l > -m and h < m:
            return ieq(mkpoly(s), 0)
    if m > 2 and isprime(m):
        # common atoms
        it = iter(d)
        common = set(next(it))
        for k in it:
            common &= set(k)
            if not common:
                break
        if common:
            rest = dict(d)
            fs = []
            for x in sorted(common, key=lambda t: t.id):
                while all(x in k for k in rest):
                    nr = {}
                    for k, c in rest.items():
                        kk = list(k)
                        kk.remove(x)
                        nr[tuple(kk)] = c
                    if len(nr) != len(rest):
                        break
                    rest = nr
                    fs.append(x)
                    if x.op == 'ind':
                        break
            if fs:
                out = []
                for x in set(fs):
                    if x.op == 'ind':
                        out.append(bnot(x.args[0]))
                    else:
                        out.append(mzatom(x, m))
                out.append(mz(mkpoly(rest), m))
                return bor(*out)
        lead = max(d, key=lambda k: _mkey((k,)))
        c = d[lead]
        if c != 1:
            ci = pow(c, -1, m)
            d = {k: v * ci % m for k, v in d.items()}
    if generic is not None and generic(d, m):
        return False
    p = mkpoly(d)
    return mk('mz', (p, m), 'B')


def mzatom(x, m):
    l, h = irange(x)
    if l is not None and h is not None and l > -m and h < m:
        if l > 0 or h < 0:
            return False
        if resmod(x) is None:
            return ieq(x, 0)
    if generic is not None and generic(P(_unmod(x, m)), m):
        return False
    return mk('mz', (x, m), 'B')


def inv(a, m):
    """inverse modulo m (unspecified value in [0,m) when not invertible)"""
    if not isinstance(a, Term):
        try:
            return pow(a, -1, m)
        except ValueError:
            return iuf('inv_undef', (a, m), 0, m - 1)
    a = imod(a, m)
    if not isinstance(a, Term):
        return inv(a, m)
    if a.op == 'imod' and a.args[0].op == 'poly' and isprime(m):
        d = P(a.args[0])
        # pull out the leading coefficient so that inv(-x) and inv(x) share one atom
        lead = max(d, key=lambda k: _mkey((k,)))
        c = d[lead]
        if c != 1:
            ci = pow(c, -1, m)
            b = imod(mkpoly({k: v * ci % m for k, v in d.items()}), m)
            # inv(c*b) = ci*inv(b) when b != 0; when b == 0 both are unspecified
            return imod(imul(ci, mk('inv', (b, m), 'I')), m)
    return mk('inv', (a, m), 'I')


_bitsof = {}


def bitsof(k, w):
    """Bools b_0..b_{w-1} with k = sum 2^i b_i  (0 <= k < 2^w)"""
    if not isinstance(k, Term):
        return [bool(k >> i & 1) for i in range(w)]
    if k.op == 'b2i':
        x = k.args[0]
        return [eq(extract(x, i, i), 1, 1) if i < x.sort else False for i in range(w)]
    if k.op == 'ind':
        return [k.args[0]] + [False] * (w - 1)
    if k.op == 'idiv' and k.args[1] & (k.args[1] - 1) == 0:
        l, h = irange(k.args[0])
        if l is not None and h is not None and l >= 0:
            j = k.args[1].bit_length() - 1
            return (bitsof(k.args[0], max(h.bit_length(), w + j))[j:])[:w]
    if k.op == 'ite':
        A = bitsof(k.args[1], w)
        B = bitsof(k.args[2], w)
        return [bite(k.args[0], x, y) for x, y in zip(A, B)]
    if k.op == 'poly':
        d = P(k)
        # sum of distinct powers of two times indicators
        used = {}
        ok = True
        for mono, c in d.items():
            if c <= 0 or c & (c - 1) or (mono and (len(mono) != 1 or mono[0].op != 'ind')):
                ok = False
                break
            i = c.bit_length() - 1
            if i in used:
                ok = False
                break
            used[i] = mono[0].args[0] if mono else True
        if ok:
            return [used.get(i, False) for i in range(w)]
        odd = [m_ for m_, c in d.items() if c % 2]
        if len(odd) == 1 and len(odd[0]) == 1 and odd[0][0].op == 'ind':
            # even part + one bit
            half = mkpoly({m_: c // 2 for m_, c in d.items() if c // 2})
            l, h = irange(half)
            if l is not None and l >= 0:
                return [odd[0][0].args[0]] + bitsof(half, w - 1)
        if all(c % 2 == 0 for m_, c in d.items() if m_):
            # even part + constant bit
            c0 = d.get(EMPTY, 0)
            half = mkpoly({m_: (c - (c0 % 2 if not m_ else 0)) // 2 for m_, c in d.items() if m_ or c - c0 % 2})
            l, h = irange(half)
            if l is not None and l >= 0:
                return [bool(c0 & 1)] + bitsof(half, w - 1)
    l, h = irange(k)
    hw = h.bit_length() if h is not None else w
    _bitsof[k] = max(hw, _bitsof.get(k, 0))
    # leading bits on which the bounds agree are known
    same = (l ^ h).bit_length() if l is not None and h is not None and l >= 0 else w
    return [(mk('bit', (k, i), 'B') if i < same else bool(h >> i & 1)) if i < hw else False for i in range(w)]


def frombits(bs):
    d = {}
    for i, b in enumerate(bs):
        k = EMPTY if b is True else () if b is False else (ind(b),)
        if b is not False:
            d[k] = d.get(k, 0) + (1 << i)
    return mkpoly(d)


# ------------------------------------------------------------------ traversal
def subterms(ts):
    seen = set()
    out = []
    st = [t for t in ts if isinstance(t, Term)]
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        out.append(t)
        if t.op == 'poly':
            for m, c in t.args:
                st.extend(m)
        elif t.op == 'concat':
            for p, w in t.args:
                if isinstance(p, Term):
                    st.append(p)
        elif t.op == 'lin':
            st.extend(linatoms(t))
        else:
            for a in t.args:
                if isinstance(a, Term):
                    st.append(a)
    return out


_BVOPS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}


def rebuild(t, f):
    """rebuild t with sub-values mapped by f"""
    op = t.op
    if op in ('var', 'ivar', 'bvar'):
        return t
    if op == 'poly':
        r = {}
        for m, c in t.args:
            acc = {EMPTY: c}
            plain = []
            for x in m:
                y = f(x)
                if y is x:
                    plain.append(x)
                else:
                    acc = pmul(acc, P(y))
            s = tuple(plain)
            for k2, c2 in acc.items():
                k = mmul(s, k2)
                v = r.get(k, 0) + c2
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return mkpoly(r)
    if op == 'concat':
        return concat([(f(p) if isinstance(p, Term) else p, w) for p, w in t.args])
    if op == 'lin':
        al = linatoms(t)
        if all(f(x) is x for x in al):
            return t
    a = tuple(f(x) if isinstance(x, Term) else x for x in t.args)
    if a == t.args and op != 'lin':
        return t
    if op in _BVOPS and t.sort != 'B':
        if t.sort == 1:
            return _bw(op, a[0], a[1], 1)
        return bvbin(op, a[0], a[1], t.sort)
    if op == 'not':
        return bnot(a[0])
    if op == 'and':
        return band(*a)
    if op == 'or':
        return bor(*a)
    if op == 'bite':
        return bite(*a)
    if op == 'iff':
        return biff(*a)
    if op == 'ite':
        return iite(*a) if t.sort == 'I' else ite(a[0], a[1], a[2], t.sort)
    if op == 'extract':
        return extract(*a)
    if op == 'sext':
        return sext(a[0], t.args[0].sort, t.sort)
    if op in ('eq', 'ult', 'slt'):
        x = t.args[0] if isinstance(t.args[0], Term) else t.args[1]
        return {'eq': eq, 'ult': ult, 'slt': slt}[op](a[0], a[1], x.sort)
    if op == 'select':
        return select(a[0], a[1], t.sort)
    if op == 'lin':
        ys = [(1, 1)]
        for x in linatoms(t):
            y = f(x)
            ys.append((latom(x), y if not isinstance(y, Term) else tolin(y, 1)[0]))
        rows = []
        for r in t.args[0]:
            v = 0
            for b, y in ys:
                if r & b:
                    v ^= y
            rows.append(v)
        return mklin(rows)
    if op == 'imod':
        return imod(*a)
    if op == 'idiv':
        return idiv(*a)
    if op == 'b2i':
        return b2i(a[0], t.args[0].sort)
    if op == 'i2b':
        return i2b(a[0], t.sort)
    if op == 'ind':
        return ind(a[0])
    if op == 'ige0':
        return ige0(a[0])
    if op == 'ieq':
        return ieq(a[0], 0)
    if op == 'mz':
        return mz(*a)
    if op == 'inv':
        return inv(*a)
    if op in ('PX', 'PY'):
        return _pxy(op, a[0], a[1:])
    if op == 'powm':
        return powm(*a)
    if op == 'bit':
        if isinstance(a[0], Term):
            h = irange(a[0])[1]
            return bitsof(a[0], max(a[1] + 1, (h or 0).bit_length()))[a[1]]
        return bool(a[0] >> a[1] & 1)
    if op == 'bvuf' and a[0].startswith('AES'):
        return aesblock(int(a[0][3:]), a[1], a[2])
    t2 = mk(op, a, t.sort)
    if op == 'iuf' and t2.aux is None:
        t2.lo, t2.hi, t2.aux = t.lo, t.hi, True
    return t2


def subst(ts, mapping):
    """replace terms (keys: Term) in the list of terms"""
    memo = dict(mapping)

    def go(x):
        if not isinstance(x, Term):
            return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    return [go(t) for t in ts]


def powm(b, e, m):
    if not isinstance(b, Term) and not isinstance(e, Term):
        return pow(b, e, m)
    if not isinstance(e, Term):
        if 0 <= e <= 8:
            r = 1
            for _ in range(e):
                r = imod(imul(r, b), m)
            return r
        return mk('powm', (imod(b, m), e, m), 'I')
    return mk('powm', (b, e, m), 'I')
