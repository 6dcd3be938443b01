"""Decision procedure: z3 over the Boolean structure, bit-vectors and integers, with a finite-field theory for the
congruences modulo large primes (lazy, conflict clauses), and concrete model construction."""
import random, time
import z3
from . import term as T, ff
from .term import Term, EMPTY


class Stats:
    def __init__(self):
        self.queries = 0
        self.z3calls = 0
        self.z3time = 0.0
        self.theory = 0
        self.conflicts = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.bysimp = 0
        self.fftime = 0.0
        self.lin = 0
        self.feas = 0


class NoEval(Exception):
    pass


class Solver:
    def __init__(self, opts=None):
        self.o = dict(timeout=60, feastimeout=4, ff=True, lia=True)
        self.o.update(opts or {})
        self.st = Stats()
        self.tr = {}
        self.axioms = []       # callables(terms) -> extra Bool terms
        self.defs = []
        self.linked = {}
        self.rnd = random.Random(12345)
        self.ctxn = 0
        self.feascache = {}
        self.hooks = []        # model hooks
        self.lemmas = []       # permanent theory lemmas: Bool terms
        self.samplers = []
        self.sqrtwits = []     # (term, prime): numbers whose squares are of interest

    # ------------------------------------------------------------ translation
    def zb(self, t):
        """Bool term -> z3"""
        if t is True or t is False:
            return z3.BoolVal(t)
        return self.z(t)

    def zi(self, t):
        if not isinstance(t, Term):
            return z3.IntVal(t)
        return self.z(t)

    def zv(self, t, w):
        if not isinstance(t, Term):
            return z3.BitVecVal(t, w)
        if t.sort == 'B':
            return z3.If(self.z(t), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return self.z(t)

    def z(self, t):
        r = self.tr.get(t)
        if r is not None:
            return r
        # iterative over the DAG to avoid deep recursion
        st = [t]
        while st:
            x = st[-1]
            if x in self.tr:
                st.pop()
                continue
            ch = [c for c in self.kids(x) if c not in self.tr]
            if ch:
                st.extend(ch)
                continue
            st.pop()
            self.tr[x] = self.conv(x)
        return self.tr[t]

    def kids(self, x):
        op = x.op
        if op in ('mz', 'bit', 'inv', 'powm', 'PX', 'PY', 'iuf', 'buf'):
            return ()
        if op == 'poly':
            return [a for m, c in x.args for a in m]
        if op == 'concat':
            return [p for p, w in x.args if isinstance(p, Term)]
        if op == 'bvuf':
            return [a for a in x.args[1:] if isinstance(a, Term)]
        if op == 'lin':
            return T.linatoms(x)
        return [a for a in x.args if isinstance(a, Term)]

    def fresh(self, x, kind):
        n = '%s!%d' % (x.op, x.id)
        if kind == 'B':
            return z3.Bool(n)
        if kind == 'I':
            return z3.Int(n)
        return z3.BitVec(n, kind)

    def rangedef(self, x, v):
        lo, hi = T.irange(x)
        if lo is not None:
            self.defs.append((x, v >= lo))
        if hi is not None:
            self.defs.append((x, v <= hi))

    def conv(self, x):
        op = x.op
        a = x.args
        w = x.sort
        if op == 'bvar':
            return z3.Bool(str(a[0]))
        if op == 'not':
            return z3.Not(self.zb(a[0]))
        if op == 'and':
            return z3.And([self.zb(y) for y in a])
        if op == 'or':
            return z3.Or([self.zb(y) for y in a])
        if op == 'bite':
            return z3.If(self.zb(a[0]), self.zb(a[1]), self.zb(a[2]))
        if op == 'iff':
            return self.zb(a[0]) == self.zb(a[1])
        if op in ('mz', 'bit', 'buf'):
            return self.fresh(x, 'B')
        if op == 'var':
            v = z3.BitVec(str(a[0]), w)
            if x.aux:
                self.defs.append((x, z3.And(z3.UGE(v, x.aux[0]), z3.ULE(v, x.aux[1]))))
            return v
        if op in ('eq', 'ult', 'slt'):
            ww = a[0].sort if isinstance(a[0], Term) else a[1].sort
            if ww == 'B':
                ww = 1
            p, q = self.zv(a[0], ww), self.zv(a[1], ww)
            if op == 'eq':
                return p == q
            return z3.ULT(p, q) if op == 'ult' else p < q
        if op == 'concat':
            return z3.Concat([self.zv(p, pw) for p, pw in a])
        if op == 'extract':
            return z3.Extract(a[1], a[2], self.zv(a[0], a[0].sort))
        if op == 'sext':
            return z3.SignExt(w - a[0].sort, self.zv(a[0], a[0].sort))
        if op == 'ite':
            if w == 'I':
                return z3.If(self.zb(a[0]), self.zi(a[1]), self.zi(a[2]))
            return z3.If(self.zb(a[0]), self.zv(a[1], w), self.zv(a[2], w))
        if op in T._BVOPS:
            p, q = self.zv(a[0], w), self.zv(a[1], w)
            return {'add': lambda: p + q, 'sub': lambda: p - q, 'mul': lambda: p * q, 'and': lambda: p & q,
                    'or': lambda: p | q, 'xor': lambda: p ^ q, 'shl': lambda: p << q, 'lshr': lambda: z3.LShR(p, q),
                    'ashr': lambda: p >> q, 'udiv': lambda: z3.UDiv(p, q), 'urem': lambda: z3.URem(p, q),
                    'sdiv': lambda: p / q, 'srem': lambda: z3.SRem(p, q)}[op]()
        if op == 'lin':
            r = z3.BitVecVal(sum((q & 1) << i for i, q in enumerate(a[0])), w)
            for y in T.linatoms(x):
                b = T.latom(y)
                m = sum(1 << i for i, q in enumerate(a[0]) if q & b)
                r = r ^ z3.If(self.zb(y) if y.sort == 'B' else self.z(y) == 1, z3.BitVecVal(m, w), z3.BitVecVal(0, w))
            return r
        if op == 'select':
            tb, idx = a
            iw = idx.sort
            zi = self.zv(idx, iw)
            n = len(tb)

            def tree(lo, hi, bit):
                if bit < 0 or hi - lo == 1:
                    return z3.BitVecVal(tb[lo] if lo < n else 0, w)
                mid = lo + (1 << bit)
                if mid >= n:
                    return tree(lo, mid, bit - 1)
                return z3.If(z3.Extract(bit, bit, zi) == 1, tree(mid, hi, bit - 1), tree(lo, mid, bit - 1))
            k = (n - 1).bit_length()
            return tree(0, 1 << k, k - 1)
        if op == 'bvuf':
            args = [self.zv(y, y.sort) if isinstance(y, Term) else y for y in a[1:]]
            sig = []
            zargs = []
            for y, s in zip(args, self.ufsig(x)):
                sig.append(z3.BitVecSort(s))
                zargs.append(z3.BitVecVal(y, s) if isinstance(y, int) else y)
            f = z3.Function('%s_%s' % (a[0], '_'.join(str(s) for s in self.ufsig(x))), *(sig + [z3.BitVecSort(w)]))
            return f(*zargs)
        if op == 'i2b':
            r = self.fresh(x, w)
            l, h = T.irange(a[0])
            p = self.zi(a[0])
            if l is not None and h is not None and l >= 0 and h <= T.mask(w):
                self.defs.append((x, z3.BV2Int(r) == p))
            else:
                self.defs.append((x, r == z3.Int2BV(p, w)))
            return r
        # ---- integers
        if op == 'poly':
            terms = []
            for m, c in a:
                if not m:
                    terms.append(z3.IntVal(c))
                elif len(m) == 1:
                    terms.append(c * self.zi(m[0]))
                else:
                    key = T.mk('mono', m, 'I')
                    v = self.tr.get(key)
                    if v is None:
                        bools = [y for y in m if y.op == 'ind']
                        rest = tuple(y for y in m if y.op != 'ind')
                        if len(rest) <= 1 and bools:
                            cnd = z3.And([self.zb(y.args[0]) for y in bools])
                            v = z3.If(cnd, self.zi(rest[0]) if rest else z3.IntVal(1), z3.IntVal(0))
                        else:
                            v = z3.Int('mono!%d' % key.id)
                            lo, hi = T._polyrange({m: 1})
                            if lo is not None:
                                self.defs.append((key, v >= lo))
                            if hi is not None:
                                self.defs.append((key, v <= hi))
                        self.tr[key] = v
                    terms.append(c * v)
            return z3.Sum(terms) if len(terms) > 1 else terms[0]
        if op == 'ind':
            return z3.If(self.zb(a[0]), z3.IntVal(1), z3.IntVal(0))
        if op == 'b2i':
            return z3.BV2Int(self.zv(a[0], a[0].sort))
        if op == 'ige0':
            return self.zi(a[0]) >= 0
        if op == 'ieq':
            return self.zi(a[0]) == 0
        if op == 'imod':
            v = self.fresh(x, 'I')
            self.rangedef(x, v)
            if self.linear(a[0]):
                q = z3.Int('q!%d' % x.id)
                self.defs.append((x, self.zi(a[0]) == a[1] * q + v))
            return v
        if op == 'idiv':
            v = self.fresh(x, 'I')
            self.rangedef(x, v)
            p = self.zi(a[0])
            self.defs.append((x, z3.And(v * a[1] <= p, p <= v * a[1] + (a[1] - 1))))
            return v
        if op in ('ivar', 'inv', 'powm', 'PX', 'PY', 'iuf'):
            v = z3.Int(str(a[0])) if op == 'ivar' else self.fresh(x, 'I')
            self.rangedef(x, v)
            return v
        raise NotImplementedError('z3 translation of ' + op)

    def ufsig(self, x):
        # argument widths of the AES key stream: key 256 (stored), iv 128
        return [256, 128][:len(x.args) - 1]

    def linear(self, t):
        if not isinstance(t, Term):
            return True
        if t.op != 'poly':
            return True
        return all(sum(1 for y in m if y.op != 'ind') <= 1 for m in T.P(t))

    # ------------------------------------------------------------ preparation
    def prepare(self, fs):
        """bit-decomposition substitution; algebraic axioms.  -> (formulas, axioms)"""
        fs = [f for f in fs if f is not True]
        sub = T.subterms(fs)
        ks = {}
        for t in sub:
            if t.op == 'bit':
                ks[t.args[0]] = 1
        if ks:
            mapping = {}
            for k in ks:
                n = T._bitsof.get(k) or T.irange(k)[1].bit_length()
                mapping[k] = n
            out = []
            # only inside congruences
            smap = {}
            for k, n in mapping.items():
                smap[k] = T.frombits(T.bitsof(k, n))
            known = {}
            for f in fs:
                x = f.args[0] if f.op == 'not' else f
                if x.op == 'bit':
                    known[x] = f is x
            if known:
                for k in smap:
                    smap[k] = T.subst([smap[k]], known)[0]
                fs = [f if (f.args[0] if f.op == 'not' else f) in known else T.subst([f], known)[0] for f in fs]
                fs = [f for f in fs if f is not True]
                if any(f is False for f in fs):
                    return [False]
                sub = T.subterms(fs)
            amap = {}
            for t in sub:
                if t.op == 'mz':
                    p = t.args[0]
                    d = T.P(p)
                    # the number itself occurs: replace it by its bits
                    hit = [k for k in mapping if any(k in m for m in d)]
                    if hit:
                        inds = any(y.op == 'ind' and y.args[0].op == 'bit' and y.args[0].args[0] in hit for m in d for y in m)
                        if not inds and (sum(1 for m in d for y in m if y in hit) > 4 or
                                         any(sum(1 for y in m if y in hit) > 1 for m in d)):
                            continue
                        try:
                            q = T.subst([p], {k: smap[k] for k in hit})[0]
                            r = T.mz(q, t.args[1])
                        except T.TooBig:
                            continue
                        if r is not t:
                            amap[t] = r
            if amap:
                fs = T.subst(fs, amap)
        return fs

    def theory_axioms(self, fs):
        out = []
        seen = set()
        work = list(fs)
        for _ in range(4):
            new = []
            for t in T.subterms(work):
                if t.id in seen:
                    continue
                seen.add(t.id)
                if t.op == 'inv':
                    a, m = t.args
                    z = T.mz(a, m)
                    new.append(T.bor(z, T.mz(T.isub(T.imul(a, t), 1), m)))
                elif t.op == 'powm':
                    new.extend(self.powaxioms(t))
                for f in self.axioms:
                    r = f(t)
                    if r:
                        new.extend(r)
            new = [x for x in new if x is not True]
            out.extend(new)
            if not new:
                break
            work = new
        return out

    def powaxioms(self, t):
        b, e, m = t.args
        if isinstance(e, Term) or not T.isprime(m):
            return []
        out = []
        wits = [y for y, q in self.sqrtwits if q == m]
        if e == m - 2:
            out.append(T.bor(T.mz(b, m), T.mz(T.isub(T.imul(b, t), 1), m)))
            out.append(T.bor(T.bnot(T.mz(b, m)), T.mz(t, m)))
        elif e == (m - 1) // 2:
            # Euler's criterion
            out.append(T.bor(T.mz(t, m), T.mz(T.isub(t, 1), m), T.mz(T.iadd(t, 1), m)))
            out.append(T.biff(T.mz(b, m), T.mz(t, m)))
            for y in wits:
                out.append(T.bor(T.bnot(T.mz(T.isub(T.imul(y, y), b), m)), T.mz(b, m), T.mz(T.isub(t, 1), m)))
        elif m % 4 == 3 and e == (m + 1) // 4:
            # r = b^((m+1)/4):  r^2 = chi(b) * b
            r2 = T.imul(t, t)
            out.append(T.bor(T.mz(T.isub(r2, b), m), T.mz(T.iadd(r2, b), m)))
            # b = y^2 for some y  =>  r^2 = b   (instantiated for the square roots known to exist)
            for y in wits:
                out.append(T.bor(T.bnot(T.mz(T.isub(T.imul(y, y), b), m)), T.mz(T.isub(r2, b), m)))
            chi = T.powm(b, (m - 1) // 2, m)
            out.append(T.mz(T.isub(r2, T.imul(chi, b)), m))
        return out

    # ------------------------------------------------------------ feasibility (over-approximation)
    def feasible(self, pc, cond):
        self.st.feas += 1
        fs = [c for c in pc] + [cond]
        conj = T.band(*fs)
        if conj is False:
            return False
        key = conj.id if isinstance(conj, Term) else conj
        r = self.feascache.get(key)
        if r is not None:
            return r
        # restrict to the part sharing variables with the condition
        rel = self.related(fs, cond)
        t0 = time.time()
        if T.used_lin:
            rel = T.eliminate(rel)
            if rel is None or T.band(*rel) is False:
                self.feascache[key] = False
                return False
        s = z3.Solver()
        s.set('timeout', int(self.o['feastimeout'] * 1000))
        zs = [self.zb(f) for f in rel]
        for z in zs:
            s.add(z)
        self.adddefs(s, rel)
        r = s.check()
        self.st.z3calls += 1
        self.st.z3time += time.time() - t0
        res = r != z3.unsat
        self.feascache[key] = res
        return res

    def atomsof(self, f):
        if not isinstance(f, Term):
            return frozenset()
        if not hasattr(self, '_atoms'):
            self._atoms = {}
        r = self._atoms.get(f)
        if r is None:
            s = set()
            for t in T.subterms([f]):
                if t.op in ('var', 'ivar', 'bvar', 'bit', 'mz', 'bvuf', 'iuf', 'buf', 'PX', 'PY', 'powm', 'inv'):
                    s.add(t)
            r = frozenset(s)
            self._atoms[f] = r
        return r

    def related(self, fs, cond):
        if len(fs) <= 3:
            return fs
        want = set(self.atomsof(cond))
        rest = [(f, self.atomsof(f)) for f in fs]
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for f, a in rest:
                if a & want or f is cond:
                    want |= a
                    out.append(f)
                    ch = True
                else:
                    nr.append((f, a))
            rest = nr
        return out

    def adddefs(self, s, fs):
        ids = None
        if len(self.defs) > 0:
            ids = {t.id for t in T.subterms(fs)}
            monos = set()
            for t in T.subterms(fs):
                if t.op == 'poly':
                    for m, c in t.args:
                        if len(m) > 1:
                            monos.add(T.mk('mono', m, 'I').id)
            n = 0
            for x, d in self.defs:
                if x.id in ids or x.id in monos:
                    s.add(d)

    # ------------------------------------------------------------ full check
    def check(self, fs, want_model=True, timeout=None):
        """-> ('unsat'|'sat'|'unknown', model or None)"""
        self.st.queries += 1
        timeout = timeout or self.o['timeout']
        conj = T.band(*fs)
        if conj is False:
            self.st.bysimp += 1
            self.st.unsat += 1
            return 'unsat', None
        if conj is True:
            self.st.sat += 1
            return 'sat', {}
        fs = list(conj.args) if conj.op == 'and' else [conj]
        fs = self.prepare(fs)
        conj = T.band(*fs)
        if conj is False:
            self.st.bysimp += 1
            self.st.unsat += 1
            return 'unsat', None
        if conj is True:
            self.st.sat += 1
            return 'sat', {}
        fs = list(conj.args) if conj.op == 'and' else [conj]
        if T.used_lin:
            fs = T.eliminate(fs)
            if fs is None:
                self.st.bysimp += 1
                self.st.unsat += 1
                return 'unsat', None
        for h in self.hooks:
            r = h(self, fs)
            if r is not None:
                if r[0] == 'unsat':
                    self.st.unsat += 1
                    return 'unsat', None
                if r[0] == 'replace':
                    fs = r[1]
        ax = self.theory_axioms(fs)
        allf = fs + ax
        end = time.time() + timeout
        level = 0
        ciphers = [t for t in T.subterms(fs) if t.op == 'bvuf']
        if ciphers:
            return self.checkcipher(fs, ciphers, end)
        while True:
            r = self.run(allf, fs, end, level)
            if r[0] == 'unknown' and level == 0 and time.time() < end and self.o['lia']:
                level = 1
                continue
            break
        setattr(self.st, r[0], getattr(self.st, r[0]) + 1)
        return r

    def checkcipher(self, fs, ciphers, end):
        """the cipher as an uninterpreted function; a model is made concrete by trying keys"""
        s = z3.Solver()
        s.set('timeout', max(1, int(1000 * (end - time.time()))))
        for f in fs:
            s.add(self.zb(f))
        self.adddefs(s, fs)
        t0 = time.time()
        self.st.z3calls += 1
        r = s.check()
        self.st.z3time += time.time() - t0
        if r == z3.unsat:
            self.st.unsat += 1
            return 'unsat', None
        kv = [t for t in T.subterms([y for x in ciphers for y in x.args[1:] if isinstance(y, Term)])
              if t.op in ('var', 'ivar', 'bvar')]
        m = s.model() if r == z3.sat else None
        for i in range(60):
            if time.time() > end:
                break
            mp = {}
            for t in kv:
                if t.op == 'bvar':
                    mp[t] = bool(self.rnd.getrandbits(1))
                    continue
                lo, hi = (t.lo, t.hi) if t.op == 'ivar' else (t.aux or (0, T.mask(t.sort)))
                v = None
                if i == 0 and m is not None:
                    z = m.eval(self.z(t))
                    v = z.as_long() if z3.is_bv_value(z) or z3.is_int_value(z) else lo
                mp[t] = self.rnd.randint(lo, hi) if v is None else v
            r2 = self.check(T.subst(fs, mp), True, max(1, min(10, end - time.time())))
            if r2[0] == 'sat':
                d = dict(r2[1])
                d.update(mp)
                return 'sat', d
        self.st.unknown += 1
        return 'unknown', None

    def run(self, allf, goal, end, level):
        s = z3.Solver()
        for f in allf:
            s.add(self.zb(f))
        self.adddefs(s, allf)
        sub = T.subterms(allf)
        mzs = [t for t in sub if t.op == 'mz']
        bits = {}
        for t in sub:
            if t.op == 'bit':
                bits.setdefault(t.args[0], set()).add(t.args[1])
        hasint = any(t.op in ('ige0', 'ieq', 'b2i', 'i2b') for t in sub)
        if bits and (hasint or level):
            for k in bits:
                n = T._bitsof.get(k) or T.irange(k)[1].bit_length()
                z = self.zi(k)
                extra = z3.Sum([z3.IntVal((b is True) << i) if isinstance(b, bool) else z3.If(self.zb(b), z3.IntVal(1 << i), z3.IntVal(0))
                                for i, b in enumerate(T.bitsof(k, n))])
                s.add(z == extra)
                lo, hi = T.irange(k)
                s.add(z >= lo, z <= hi)
        if level and (hasint or True):
            for t in mzs:
                p, m = t.args
                if self.linear(p) and len(T.P(p)) <= 6:
                    lo, hi = T.irange(p)
                    q = z3.Int('mq!%d' % t.id)
                    rr = z3.Int('mr!%d' % t.id)
                    z = self.zi(p)
                    s.add(z == m * q + rr, rr >= 0, rr < m, self.zb(t) == (rr == 0))
            self.adddefs(s, allf)
        unknown = False
        blocked = 0
        nfail = 0
        while True:
            left = end - time.time()
            if left <= 0.05:
                return 'unknown', None
            s.set('timeout', max(50, int(left * 1000)))
            t0 = time.time()
            r = s.check()
            self.st.z3calls += 1
            self.st.z3time += time.time() - t0
            if r == z3.unsat:
                return ('unknown' if blocked else 'unsat'), None
            if r != z3.sat:
                return 'unknown', None
            zm = s.model()
            # theory
            assign = {}
            lits = self.implicant(allf, zm)
            conflict = self.theory(lits, zm)
            if conflict is not None:
                self.st.conflicts += 1
                s.add(z3.Not(z3.And([self.zb(l) for l in conflict])))
                continue
            m = self.concretise(goal, allf, lits, zm, end)
            if m is not None:
                return 'sat', m
            # not refuted, no concrete point found: try other branches for a while
            nfail += 1
            if nfail > 12 or not lits:
                return 'unknown', None
            blocked += 1
            s.add(z3.Not(z3.And([self.zb(l) for l in lits if l.op in ('mz', 'not', 'bit')] or [self.zb(l) for l in lits])))

    def evalb(self, t, zm, memo):
        """truth value of a Bool term in a z3 model (atoms looked up by translation)"""
        if t is True or t is False:
            return t
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op == 'not':
            r = not self.evalb(t.args[0], zm, memo)
        elif op == 'and':
            r = all(self.evalb(x, zm, memo) for x in t.args)
        elif op == 'or':
            r = any(self.evalb(x, zm, memo) for x in t.args)
        elif op == 'bite':
            r = self.evalb(t.args[1] if self.evalb(t.args[0], zm, memo) else t.args[2], zm, memo)
        elif op == 'iff':
            r = self.evalb(t.args[0], zm, memo) == self.evalb(t.args[1], zm, memo)
        else:
            r = z3.is_true(zm.eval(self.zb(t), model_completion=True))
        memo[t] = r
        return r

    def implicant(self, fs, zm):
        """literals over atoms that make the formulas true"""
        memo = {}
        out = {}
        seen = set()

        def lit(t, v):
            l = t if v else T.bnot(t)
            out[l.id if isinstance(l, Term) else l] = l

        def go(t, v):
            st = [(t, v)]
            while st:
                t, v = st.pop()
                if t is True or t is False or (t.id, v) in seen:
                    continue
                seen.add((t.id, v))
                op = t.op
                if op == 'not':
                    st.append((t.args[0], not v))
                elif op == 'and' and v or op == 'or' and not v:
                    st.extend((x, v) for x in t.args)
                elif op in ('and', 'or'):
                    # pick a justifying child; prefer one already chosen or a negated congruence
                    c = [x for x in t.args if self.evalb(x, zm, memo) == v]
                    pick = None
                    for x in c:
                        if (x.id, v) in seen:
                            pick = x
                            break
                    if pick is None:
                        def cost(x):
                            y = x.args[0] if x.op == 'not' else x
                            pos = v != (x.op == 'not')
                            if y.op == 'mz':
                                return 3 if pos else 2
                            return 1 if y.op not in ('and', 'or', 'bite', 'iff') else 2
                        pick = min(c, key=cost)
                    st.append((pick, v))
                elif op == 'bite':
                    cv = self.evalb(t.args[0], zm, memo)
                    st.append((t.args[0], cv))
                    st.append((t.args[1] if cv else t.args[2], v))
                elif op == 'iff':
                    for x in t.args:
                        st.append((x, self.evalb(x, zm, memo)))
                else:
                    lit(t, v)
        for f in fs:
            go(f, True)
        # Booleans occurring as indicators inside congruences
        for l in list(out.values()):
            a = l.args[0] if l.op == 'not' else l
            if a.op == 'mz':
                for m, c in T.P(a.args[0]).items():
                    for x in m:
                        if x.op == 'ind':
                            go(x.args[0], self.evalb(x.args[0], zm, memo))
        self._memo = memo
        return list(out.values())

    def theory(self, lits, zm):
        """conflict (list of literals) or None"""
        groups = {}
        for l in lits:
            neg = l.op == 'not'
            a = l.args[0] if neg else l
            if a.op != 'mz':
                continue
            p, m = a.args
            if not T.isprime(m) or m < 1 << 16:
                continue
            groups.setdefault(m, ([], []))[1 if neg else 0].append(l)
        for m, (es, ns) in groups.items():
            self.st.theory += 1
            t0 = time.time()
            E, N = [], []
            used = {}

            def conv(l, store):
                a = l.args[0] if l.op == 'not' else l
                d = {}
                deps = []
                for mono, c in T.P(a.args[0]).items():
                    k = []
                    zero = False
                    for x in mono:
                        if x.op == 'ind':
                            v = self.evalb(x.args[0], zm, self._memo)
                            b = x.args[0] if v else T.bnot(x.args[0])
                            deps.append(b)
                            if not v:
                                zero = True
                                break
                        else:
                            k.append(x)
                    if zero:
                        continue
                    k = tuple(k)
                    v = (d.get(k, 0) + c) % m
                    if v:
                        d[k] = v
                    else:
                        d.pop(k, None)
                store.append((d, l, deps))
            for l in es:
                conv(l, E)
            for l in ns:
                conv(l, N)
            Ed = [d for d, l, b in E]
            Nd = [d for d, l, b in N]
            res = ff.refute(Ed, Nd, m)
            self.st.fftime += time.time() - t0
            if res:
                tags = ff.core(Ed, Nd, m, [('e', i) for i in range(len(Ed))], [('n', i) for i in range(len(Nd))])
                out = {}
                for k, i in tags:
                    d, l, deps = (E if k == 'e' else N)[i]
                    out[l.id] = l
                    for b in deps:
                        out[b.id] = b
                self.st.fftime += time.time() - t0
                return list(out.values())
        return None

    # ------------------------------------------------------------ concrete models
    def evaluate(self, t, env, memo=None):
        """concrete value of a term; env: Term/name -> int"""
        memo = {} if memo is None else memo
        st = [t]
        while st:
            x = st[-1]
            if not isinstance(x, Term) or x in memo:
                st.pop()
                continue
            if x.op == 'poly':
                ch = [a for m, c in x.args for a in m if a not in memo]
            elif x.op == 'concat':
                ch = [p for p, w in x.args if isinstance(p, Term) and p not in memo]
            elif x.op == 'lin':
                ch = [a for a in T.linatoms(x) if a not in memo]
            else:
                ch = [a for a in x.args if isinstance(a, Term) and a not in memo]
            if ch:
                st.extend(ch)
                continue
            st.pop()
            memo[x] = self.ev1(x, memo, env)
        return memo[t] if isinstance(t, Term) else t

    def ev1(self, x, memo, env):
        def g(y):
            return memo[y] if isinstance(y, Term) else y
        op = x.op
        a = x.args
        w = x.sort
        if op in ('var', 'ivar', 'bvar'):
            v = env.get(x)
            if v is None:
                v = self.default(x, env)
            return v
        if op == 'not':
            return not g(a[0])
        if op == 'and':
            return all(g(y) for y in a)
        if op == 'or':
            return any(g(y) for y in a)
        if op == 'bite':
            return g(a[1]) if g(a[0]) else g(a[2])
        if op == 'iff':
            return g(a[0]) == g(a[1])
        if op == 'ite':
            r = g(a[1]) if g(a[0]) else g(a[2])
            return r
        if op == 'poly':
            s = 0
            for m, c in a:
                for y in m:
                    c *= g(y)
                s += c
            return s
        if op == 'ind':
            return 1 if g(a[0]) else 0
        if op == 'imod':
            return g(a[0]) % a[1]
        if op == 'idiv':
            return g(a[0]) // a[1]
        if op == 'mz':
            return g(a[0]) % a[1] == 0
        if op == 'ige0':
            return g(a[0]) >= 0
        if op == 'ieq':
            return g(a[0]) == 0
        if op == 'bit':
            return bool(g(a[0]) >> a[1] & 1)
        if op == 'inv':
            v = g(a[0])
            try:
                return pow(v, -1, a[1])
            except ValueError:
                return 0
        if op == 'powm':
            return pow(g(a[0]), g(a[1]), a[2])
        if op == 'concat':
            r = 0
            for p, pw in a:
                v = g(p)
                if v is True or v is False:
                    v = int(v)
                r = (r << pw) | (v & T.mask(pw))
            return r
        if op == 'extract':
            return (g(a[0]) >> a[2]) & T.mask(w)
        if op == 'sext':
            return T.sext(g(a[0]), a[0].sort, w)
        if op in T._BVOPS:
            if w == 1:
                x1, y1 = int(g(a[0])), int(g(a[1]))
                return {'and': x1 & y1, 'or': x1 | y1, 'xor': x1 ^ y1}[op]
            return T.bvbin(op, int(g(a[0])), int(g(a[1])), w)
        if op == 'eq':
            return int(g(a[0])) == int(g(a[1]))
        if op == 'ult':
            return int(g(a[0])) < int(g(a[1]))
        if op == 'slt':
            ww = a[0].sort if isinstance(a[0], Term) else a[1].sort
            return T._sgn(g(a[0]), ww) < T._sgn(g(a[1]), ww)
        if op == 'select':
            return a[0][g(a[1])]
        if op == 'lin':
            v = 1
            for y in T.linatoms(x):
                if g(y):
                    v |= T.latom(y)
            return sum((bin(x & v).count('1') & 1) << i for i, x in enumerate(a[0]))
        if op == 'b2i':
            return int(g(a[0]))
        if op == 'i2b':
            return g(a[0]) & T.mask(w)
        if op == 'iuf' and a[0] == 'inv_undef':
            return 0
        f = env.get(('fn', op, a[0] if op in ('iuf', 'buf', 'bvuf') else None)) or env.get(('fn', op))
        if f is not None:
            return f(x, [g(y) for y in a])
        raise NoEval(op + ' ' + str(a[0]))

    def default(self, x, env):
        raise NoEval(str(x))

    def fnenv(self):
        return dict(getattr(self, 'functions', {}))

    def concretise(self, goal, allf, lits, zm, end):
        """find a concrete assignment satisfying `goal`"""
        sub = T.subterms(allf)
        ivars = [t for t in sub if t.op == 'ivar']
        vars_ = [t for t in sub if t.op in ('var', 'bvar')]
        base = self.fnenv()
        for t in vars_:
            v = zm.eval(self.z(t), model_completion=True)
            base[t] = z3.is_true(v) if t.op == 'bvar' else v.as_long()
        # numbers with bit atoms
        bits = {}
        for t in sub:
            if t.op == 'bit':
                bits.setdefault(t.args[0], {})[t.args[1]] = z3.is_true(zm.eval(self.zb(t), model_completion=True))
        intrel = set()
        for t in sub:
            if t.op in ('ige0', 'ieq', 'i2b', 'idiv'):
                for y in T.subterms([t]):
                    if y.op == 'ivar':
                        intrel.add(y)
        zval = {}
        for t in ivars:
            v = zm.eval(self.z(t), model_completion=True)
            try:
                zval[t] = v.as_long()
            except Exception:
                zval[t] = 0
        E = []
        for l in lits:
            if l.op == 'mz' and T.isprime(l.args[1]) and l.args[1] > 1 << 16:
                E.append(l)
        tries = 0
        while tries < 60 and time.time() < end:
            tries += 1
            env = dict(base)
            fixed = {}
            for t in ivars:
                if t in intrel and tries % 3 != 0:
                    env[t] = zval[t]
                    fixed[t] = 1
                elif t in bits and tries % 2:
                    n = (t.hi or 1).bit_length()
                    v = sum(1 << i for i, b in bits[t].items() if b)
                    if len(bits[t]) < n:
                        for i in range(n):
                            if i not in bits[t] and self.rnd.random() < .5:
                                v |= 1 << i
                    env[t] = min(v, t.hi)
                    fixed[t] = 1
            try:
                ok = self.solve_eqs(E, env, ivars, fixed, tries, zm)
            except (NoEval, ff.GiveUp, ff.Conflict):
                ok = False
            if not ok:
                # plain random values
                for t in ivars:
                    if t not in env:
                        env[t] = self.sample(t, tries)
            try:
                memo = {}
                good = True
                for f in goal:
                    if not self.evaluate(f, env, memo):
                        good = False
                        break
            except NoEval as ex:
                self.lasterr = str(ex)
                return None
            if good:
                return {t: env[t] for t in ivars + vars_}
        return self.search(goal, ivars, vars_, base, zval, min(end, time.time() + 60))

    def search(self, goal, ivars, vars_, base, zval, end):
        """patterns of quadratic residues: scan the values of the one unknown they depend on"""
        pats = {}
        for f in goal:
            g = f.args[0] if f.op == 'not' else f
            if g.op == 'buf' and g.args[0] == 'QR':
                for v in {t for t in T.subterms([g]) if t.op == 'ivar'}:
                    pats.setdefault(v, []).append(f)
        if len(pats) != 1:
            return None
        (v, fs), = pats.items()
        rest = [f for f in goal if f not in fs]
        while time.time() < end:
            env = dict(base)
            for t in ivars:
                env[t] = zval[t] if self.rnd.random() < .7 else self.sample(t, 9)
            x = self.sample(v, self.rnd.choice([1, 9]))
            hi = v.hi if v.hi is not None else x + 10000
            for env[v] in range(x, min(hi, x + 5000)):
                try:
                    if all(self.evaluate(f, env, {}) for f in fs):
                        memo = {}
                        if all(self.evaluate(f, env, memo) for f in rest):
                            return {t: env[t] for t in ivars + vars_}
                except NoEval as ex:
                    self.lasterr = str(ex)
                    return None
                if time.time() > end:
                    break
        return None

    def sample(self, t, tries):
        lo = t.lo if t.lo is not None else -(1 << 300)
        hi = t.hi if t.hi is not None else 1 << 300
        if hi - lo < 8:
            return self.rnd.randint(lo, hi)
        c = self.rnd.random()
        if tries > 3 and c < .3:
            return max(lo, min(hi, self.rnd.choice([lo, lo + 1, hi, hi - 1, lo + 2, hi // 2])))
        if tries > 3 and c < .5:
            k = self.rnd.randrange(1, max(2, (hi - lo).bit_length()))
            return lo + self.rnd.getrandbits(k) % (hi - lo + 1)
        return self.rnd.randint(lo, hi)

    def solve_eqs(self, E, env, ivars, fixed, tries, zm):
        """assign the remaining integer variables so that the congruences E hold (best effort)"""
        byp = {}
        for l in E:
            byp.setdefault(l.args[1], []).append(l.args[0])
        for p, polys in byp.items():
            ds = []
            for q in polys:
                d = {}
                for mono, c in T.P(q).items():
                    k = []
                    cc = c
                    for x in mono:
                        if x.op == 'ind':
                            cc *= 1 if self.evalb(x.args[0], zm, self._memo) else 0
                        elif x in env and x.op == 'ivar':
                            cc = cc * env[x] % p
                        else:
                            k.append(x)
                    k = tuple(k)
                    v = (d.get(k, 0) + cc) % p
                    if v:
                        d[k] = v
                    else:
                        d.pop(k, None)
                ds.append(d)
            # inverse atoms are determined by their argument: drop equations that only define them
            ds = [d for d in ds if d]
            subs, R = ff.eliminate(ds, p)
            val = {}
            # nonlinear rest: fix all variables but one per equation
            guard = 0
            while R and guard < 40:
                guard += 1
                R = [r for r in R if r]
                if not R:
                    break
                R.sort(key=lambda r: (len(ff.variables(r)), len(r)))
                r = R[0]
                vs = sorted(ff.variables(r), key=lambda t: (t.op == 'ivar', t.id))
                if not vs:
                    return False
                if len(vs) > 1:
                    # choose a value for one variable
                    pick = next((v for v in vs if v.op == 'ivar'), vs[0])
                    lo = self.sample(pick, tries) if pick.op == 'ivar' else self.rnd.randrange(p)
                    val[pick] = lo % p
                    R = [ff.psub_var(x, pick, {EMPTY: lo % p} if lo % p else {}, p) for x in R]
                    continue
                v = vs[0]
                deg = max(len(m) for m in r)
                co = [0] * (deg + 1)
                for m, c in r.items():
                    co[len(m)] = c
                rs = ff.roots(co, p, self.rnd)
                if not rs:
                    return False
                x = self.rnd.choice(rs)
                val[v] = x
                R = [ff.psub_var(y, v, {EMPTY: x} if x else {}, p) for y in R[1:]]
                R = [y for y in R if y]
                try:
                    s2, R = ff.eliminate(R, p)
                except ff.Conflict:
                    return False
                subs = subs + s2
            # back substitution
            for v, num in reversed(subs):
                s = 0
                for m, c in num.items():
                    for x in m:
                        if x not in val:
                            val[x] = (self.sample(x, tries) if x.op == 'ivar' else self.rnd.randrange(p)) % p
                        c = c * val[x] % p
                    s = (s + c) % p
                val[v] = s
            for x, y in val.items():
                if x.op == 'ivar' and x not in env:
                    lo = x.lo or 0
                    y2 = y
                    if y2 < lo:
                        y2 += -(-(lo - y2) // p) * p
                    if x.hi is not None and y2 > x.hi:
                        return False
                    if x.hi is not None and x.hi - lo >= 2 * p and self.rnd.random() < .3:
                        y2 += p
                    env[x] = y2
        for t in ivars:
            if t not in env:
                env[t] = self.sample(t, tries)
        return True

    # ------------------------------------------------------------ values
    def value(self, fs, t):
        """some value of bit-vector t under fs, or None"""
        s = z3.Solver()
        s.set('timeout', 20000)
        for f in fs:
            if f is not True:
                s.add(self.zb(f))
        z = self.zv(t, t.sort if isinstance(t, Term) and t.sort != 'B' else 1)
        self.adddefs(s, [f for f in fs if isinstance(f, Term)] + [t])
        t0 = time.time()
        r = s.check()
        self.st.z3calls += 1
        self.st.z3time += time.time() - t0
        if r != z3.sat:
            return None
        return s.model().eval(z, model_completion=True).as_long()
