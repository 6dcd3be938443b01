"""Polynomial reasoning over a prime field: elimination, Groebner bases (lex), root finding.

A polynomial is a dict {monomial: coefficient}; a monomial is a sorted tuple of variables (Terms, by id, with repetition)."""
import random, time
from . import term as T
from .term import Term, EMPTY


class GiveUp(Exception):
    pass


def mkey_ids(m):
    return tuple(x.id for x in m)


class Ring:
    def __init__(self, p, order=None):
        self.p = p
        self.rank = order or {}

    # exponent-vector view for lex order: variables ranked; bigger rank = bigger variable
    def lexkey(self, m):
        # sort variables by descending rank; compare lexicographically, longer prefix wins
        return tuple(sorted((self.rank[x] for x in m), reverse=True))


def psub_var(d, v, num, p, maxterms=20000):
    """substitute variable v by polynomial num"""
    powers = {}
    rest = {}
    top = 0
    for m, c in d.items():
        k = sum(1 for x in m if x is v)
        if k == 0:
            rest[m] = (rest.get(m, 0) + c) % p
        else:
            r = tuple(x for x in m if x is not v)
            e = powers.setdefault(k, {})
            e[r] = (e.get(r, 0) + c) % p
            top = max(top, k)
    if not powers:
        return d
    pw = {EMPTY: 1}
    acc = rest
    for k in range(1, top + 1):
        pw = mulp(pw, num, p)
        if k in powers:
            q = mulp(powers[k], pw, p)
            for m, c in q.items():
                x = (acc.get(m, 0) + c) % p
                if x:
                    acc[m] = x
                else:
                    acc.pop(m, None)
    acc = {m: c for m, c in acc.items() if c}
    if len(acc) > maxterms:
        raise GiveUp()
    return acc


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    return tuple(sorted(m1 + m2, key=lambda t: t.id))


def mulp(a, b, p):
    if len(a) * len(b) > 400000:
        raise GiveUp()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            k = mmul(m1, m2)
            r[k] = (r.get(k, 0) + c1 * c2) % p
    return {k: c for k, c in r.items() if c}


def addp(a, b, k, p):
    r = dict(a)
    for m, c in b.items():
        v = (r.get(m, 0) + k * c) % p
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def variables(d):
    s = set()
    for m in d:
        s.update(m)
    return s


def linear_var(d, avoid=()):
    """a variable occurring exactly once, in a monomial by itself -> (v, coef)"""
    cand = {}
    occ = {}
    for m, c in d.items():
        for x in set(m):
            occ[x] = occ.get(x, 0) + 1
        if len(m) == 1:
            cand[m[0]] = c
    best = None
    for v, c in cand.items():
        if occ[v] == 1 and v not in avoid:
            if best is None or v.id > best[0].id:
                best = (v, c)
    return best


def eliminate(E, p, tags=None, deadline=None):
    """Gaussian-style elimination of variables that occur linearly.
    -> (substitutions [(v, poly)], remaining polys) or raises Conflict when 0=c derived"""
    subs = []
    E = [dict(e) for e in E]
    while True:
        if deadline and time.time() > deadline:
            raise GiveUp()
        E = [e for e in E if e]
        for e in E:
            if len(e) == 1 and EMPTY in e:
                raise Conflict()
        best = None
        for i, e in enumerate(E):
            lv = linear_var(e)
            if lv is None:
                continue
            cost = (len(e), max((len(m) for m in e), default=0))
            if best is None or cost < best[0]:
                best = (cost, i, lv)
        if best is None:
            return subs, E
        _, i, (v, c) = best
        e = E.pop(i)
        ci = pow(c, -1, p)
        num = {m: (-k * ci) % p for m, k in e.items() if not (len(m) == 1 and m[0] is v)}
        subs.append((v, num))
        E = [psub_var(x, v, num, p) for x in E]


class Conflict(Exception):
    pass


def apply_subs(d, subs, p):
    for v, num in subs:
        d = psub_var(d, v, num, p)
    return d


# ------------------------------------------------------------------ Groebner basis, lex order
class GB:
    def __init__(self, p, deadline, maxbasis=160):
        self.p = p
        self.rank = {}
        self.deadline = deadline
        self.maxbasis = maxbasis
        self.reductions = 0

    def setvars(self, vs, key=None):
        vs = sorted(vs, key=key or (lambda t: t.id))
        self.rank = {v: i for i, v in enumerate(vs)}
        self.n = len(vs)
        self.vs = vs

    def conv(self, d):
        """dict of term-monomials -> dict of exponent tuples (highest variable first)"""
        n = self.n
        r = {}
        for m, c in d.items():
            e = [0] * n
            for x in m:
                e[n - 1 - self.rank[x]] += 1
            r[tuple(e)] = c % self.p
        return r

    def lead(self, f):
        return max(f)

    def reduce(self, f, G):
        """full reduction of the leading terms"""
        p = self.p
        f = dict(f)
        out = {}
        while f:
            self.reductions += 1
            if self.reductions % 256 == 0 and time.time() > self.deadline:
                raise GiveUp()
            lm = max(f)
            c = f[lm]
            for gl, g in G:
                if all(a >= b for a, b in zip(lm, gl)):
                    q = tuple(a - b for a, b in zip(lm, gl))
                    for m, k in g.items():
                        mm = tuple(a + b for a, b in zip(m, q))
                        v = (f.get(mm, 0) - c * k) % p
                        if v:
                            f[mm] = v
                        else:
                            f.pop(mm, None)
                    break
            else:
                out[lm] = c
                del f[lm]
            if len(f) > 60000:
                raise GiveUp()
        return out

    def monic(self, f):
        lm = max(f)
        ci = pow(f[lm], -1, self.p)
        return lm, {m: c * ci % self.p for m, c in f.items()}

    def basis(self, F, targets=()):
        """-> list of (lm, monic poly); stops early when 1 is found or every target reduces to zero"""
        G = []
        for f in F:
            f = self.reduce(f, G)
            if f:
                G.append(self.monic(f))
                if not any(G[-1][0]):
                    return G
        # interreduce leading monomials
        pairs = [(i, j) for i in range(len(G)) for j in range(i)]

        def lcm(a, b):
            return tuple(max(x, y) for x, y in zip(a, b))
        tg = [dict(t) for t in targets]
        if tg and all(not self.reduce(t, G) for t in tg):
            return G
        while pairs:
            if time.time() > self.deadline or len(G) > self.maxbasis:
                raise GiveUp()
            pairs.sort(key=lambda ij: (sum(lcm(G[ij[0]][0], G[ij[1]][0])), lcm(G[ij[0]][0], G[ij[1]][0])), reverse=True)
            i, j = pairs.pop()
            a, f = G[i]
            b, g = G[j]
            l = lcm(a, b)
            if all(x + y == z for x, y, z in zip(a, b, l)):
                continue        # coprime leading monomials
            # chain criterion
            skip = False
            for k in range(len(G)):
                if k in (i, j):
                    continue
                if all(x <= y for x, y in zip(G[k][0], l)):
                    ik = (max(i, k), min(i, k))
                    jk = (max(j, k), min(j, k))
                    if ik not in pairs and jk not in pairs:
                        skip = True
                        break
            if skip:
                continue
            qa = tuple(x - y for x, y in zip(l, a))
            qb = tuple(x - y for x, y in zip(l, b))
            s = {}
            for m, c in f.items():
                s[tuple(x + y for x, y in zip(m, qa))] = c
            for m, c in g.items():
                mm = tuple(x + y for x, y in zip(m, qb))
                v = (s.get(mm, 0) - c) % self.p
                if v:
                    s[mm] = v
                else:
                    s.pop(mm, None)
            r = self.reduce(s, G)
            if r:
                G.append(self.monic(r))
                if not any(G[-1][0]):
                    return G
                n = len(G) - 1
                pairs.extend((n, k) for k in range(n))
                if tg and all(not self.reduce(t, G) for t in tg):
                    return G
        return G


def refute(E, N, p, timeout=20.0, _split=6):
    """E: polynomials that vanish, N: polynomials that do not.  True when contradictory over the prime field
    (shown over its algebraic closure), False when not shown."""
    deadline = time.time() + timeout
    return _refute(E, N, p, deadline, _split)


class _RV:
    """auxiliary variable (inverse of a non-vanishing polynomial)"""
    _n = [1 << 60]

    def __init__(self):
        _RV._n[0] += 1
        self.id = _RV._n[0]
        self.op = 'rv'

    def __hash__(self):
        return self.id


def _refute(E, N, p, deadline, split):
    try:
        subs, R = eliminate(E, p, deadline=deadline)
    except Conflict:
        return True
    except GiveUp:
        return False
    try:
        NN = []
        for n in N:
            q = apply_subs(n, subs, p)
            if not q:
                return True
            if len(q) == 1 and EMPTY in q:
                continue
            NN.append(q)
    except GiveUp:
        return False
    if not R:
        return False
    # factor out common variables of the equations: x*f = 0 splits into x = 0 or f = 0
    if split > 0:
        for i, e in enumerate(R):
            it = iter(e)
            common = set(next(it))
            for m in it:
                common &= set(m)
                if not common:
                    break
            if common:
                x = min(common, key=lambda t: t.id)
                rest = {}
                for m, c in e.items():
                    k = list(m)
                    k.remove(x)
                    rest[tuple(k)] = c
                O = R[:i] + R[i + 1:]
                return _refute(O + [{(x,): 1}], NN, p, deadline, split - 1) and \
                    _refute(O + [rest], NN + [{(x,): 1}], p, deadline, split - 1)
    # Groebner basis with the non-vanishing polynomials that share variables
    vs = set()
    for e in R:
        vs |= variables(e)
    rel = [n for n in NN if variables(n) & vs]
    for mode in (0, 1):
        F = list(R)
        allv = set(vs)
        for n in rel:
            allv |= variables(n)
        ex = []
        if mode == 1:
            for n in rel:
                t = _RV()
                q = {mmul(m, (t,)): c for m, c in n.items()}
                q[EMPTY] = (p - 1) % p
                F.append(q)
                allv.add(t)
        gb = GB(p, min(deadline, time.time() + (4 if mode == 0 else 15)))
        gb.setvars(allv)
        try:
            G = gb.basis([gb.conv(f) for f in F])
        except GiveUp:
            continue
        if any(not any(l) for l, g in G):
            return True
        if mode == 0:
            try:
                for n in rel:
                    if not gb.reduce(gb.conv(n), G):
                        return True
            except GiveUp:
                pass
            if not rel:
                return False
    return False


def core(E, N, p, tags_e, tags_n, timeout=20.0):
    """deletion-minimised conflicting subset -> list of tags"""
    e = list(zip(E, tags_e))
    n = list(zip(N, tags_n))
    # single disequality that is already enough
    for k in range(len(n)):
        if len(n) > 1 and refute([x for x, _ in e], [n[k][0]], p, timeout=4):
            n = [n[k]]
            break
    else:
        if n and refute([x for x, _ in e], [], p, timeout=4):
            n = []
    if len(e) + len(n) <= 24:
        i = 0
        end = time.time() + 6
        while i < len(e) and time.time() < end:
            t = e[:i] + e[i + 1:]
            if refute([x for x, _ in t], [x for x, _ in n], p, timeout=2):
                e = t
            else:
                i += 1
    return [t for _, t in e] + [t for _, t in n]


# ------------------------------------------------------------------ univariate roots
def upoly_trim(a):
    while a and a[-1] == 0:
        a.pop()
    return a


def upoly_mod(a, b, p):
    a = list(a)
    db = len(b) - 1
    inv = pow(b[-1], -1, p)
    while len(a) - 1 >= db and a:
        c = a[-1] * inv % p
        if c:
            s = len(a) - 1 - db
            for i in range(db + 1):
                a[s + i] = (a[s + i] - c * b[i]) % p
        a.pop()
        upoly_trim(a)
    return a


def upoly_mul(a, b, p):
    if not a or not b:
        return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] = (r[i + j] + x * y) % p
    return upoly_trim(r)


def upoly_gcd(a, b, p):
    while b:
        a, b = b, upoly_mod(a, b, p)
    if a:
        i = pow(a[-1], -1, p)
        a = [x * i % p for x in a]
    return a


def upoly_powmod(b, e, f, p):
    r = [1]
    b = upoly_mod(b, f, p)
    while e:
        if e & 1:
            r = upoly_mod(upoly_mul(r, b, p), f, p)
        b = upoly_mod(upoly_mul(b, b, p), f, p)
        e >>= 1
    return r


def roots(f, p, rnd=random):
    """roots in F_p of a univariate polynomial (coefficient list, constant first)"""
    f = upoly_trim([c % p for c in f])
    if len(f) <= 1:
        return []
    if len(f) == 2:
        return [(-f[0]) * pow(f[1], -1, p) % p]
    x = [0, 1]
    g = upoly_powmod(x, p, f, p)
    g = g + [0] * (2 - len(g))
    g[1] = (g[1] - 1) % p
    g = upoly_gcd(f, upoly_trim(g), p) if upoly_trim(list(g)) else f
    out = []
    st = [g]
    while st:
        h = st.pop()
        if len(h) <= 1:
            continue
        if len(h) == 2:
            out.append((-h[0]) * pow(h[1], -1, p) % p)
            continue
        while True:
            r = rnd.randrange(p)
            k = upoly_powmod([r, 1], (p - 1) // 2, h, p)
            k = list(k) or [0]
            k[0] = (k[0] - 1) % p
            d = upoly_gcd(h, upoly_trim(k), p) if upoly_trim(list(k)) else h
            if 1 < len(d) < len(h):
                st.append(d)
                # h / d
                st.append(upoly_div(h, d, p))
                break
    return out


def upoly_div(a, b, p):
    a = list(a)
    q = [0] * (len(a) - len(b) + 1)
    inv = pow(b[-1], -1, p)
    for s in range(len(a) - len(b), -1, -1):
        c = a[s + len(b) - 1] * inv % p
        q[s] = c
        for i in range(len(b)):
            a[s + i] = (a[s + i] - c * b[i]) % p
    return upoly_trim(q)
