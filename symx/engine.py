"""Symbolic execution of decoded LLVM IR with forking and merging at post-dominators."""
import re, time
from . import term as T
from .term import Term


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind
        self.msg = msg


class Multi(Exception):
    """fork: alternatives [(cond, fn(state)->value)]; conditions exclusive and exhaustive under the path condition"""

    def __init__(self, alts):
        self.alts = alts


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'P(%s,%s)' % (self.obj, self.off)


NULL = Ptr(0, 0)


class PIte:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'PIte%r' % (self.alts,)


class Mpz:
    """contents of an initialised mpz_t"""
    __slots__ = ('val',)

    def __init__(self, val):
        self.val = val

    def __repr__(self):
        return 'Mpz(%s)' % T.show(self.val)


class MpzPart:
    __slots__ = ('val', 'which')

    def __init__(self, val, which):
        self.val = val
        self.which = which


class Obj:
    __slots__ = ('id', 'size', 'cells', 'kind', 'zero', 'own', 'name', 'const', 'lim')

    def clone(self, own):
        o = Obj()
        o.id = self.id
        o.size = self.size
        o.cells = dict(self.cells)
        o.kind = self.kind
        o.zero = self.zero
        o.own = own
        o.name = self.name
        o.const = self.const
        return o


class Frame:
    __slots__ = ('fn', 'regs', 'block', 'ip', 'dest', 'allocas')

    def clone(self):
        f = Frame()
        f.fn = self.fn
        f.regs = list(self.regs)
        f.block = self.block
        f.ip = self.ip
        f.dest = self.dest
        f.allocas = list(self.allocas)
        return f


class State:
    __slots__ = ('objs', 'frames', 'pc', 'facts', 'ndraws', 'draws', 'tok', 'misc', 'nalloc', 'retval')


_tok = [0]


def newtok():
    _tok[0] += 1
    return _tok[0]


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


ADDRSH = 32


class Engine:
    def __init__(self, mod, solver, opts=None):
        self.mod = mod
        self.solver = solver
        self.opts = dict(merge=True, maxsteps=200_000_000, looplimit=None)
        self.opts.update(opts or {})
        self.models = {}
        self.rxmodels = []
        self.nextobj = 16
        self.incomplete = []
        self.globobj = {}
        self.funcobj = {}
        self.objfunc = {}
        self.steps = 0
        self.forks = 0
        self.merges = 0
        self.alias = None
        self.paths = 0
        self.checks = []        # records of discharged checks
        self.cands = []         # candidate violations
        self.reached = {}
        self.assumptions = {}
        self.executed = set()
        self.undefs = 0
        self.tables = {}
        self.t0 = time.time()
        self.deadline = None
        self.shadow = None

    # ------------------------------------------------------------ set-up
    def initial(self):
        st = State()
        st.objs = {}
        st.frames = []
        st.pc = []
        st.facts = {}
        st.ndraws = 0
        st.draws = ()
        st.tok = newtok()
        st.misc = {}
        st.nalloc = 0
        st.retval = None
        return st

    def alloc(self, st, size, kind, name='', zero=False):
        o = Obj()
        o.id = self.nextobj
        self.nextobj += 1
        o.size = size
        o.cells = {}
        o.kind = kind
        o.zero = zero
        o.own = st.tok
        o.name = name
        o.const = False
        st.objs[o.id] = o
        return o

    def wobj(self, st, oid):
        o = st.objs.get(oid)
        if o is None:
            self.memerror(st, oid)
        if o.own != st.tok:
            o = o.clone(st.tok)
            st.objs[oid] = o
        return o

    def memerror(self, st, oid):
        if oid == 0:
            raise PathEnd('error', 'null-pointer access')
        if oid in self.objfunc:
            raise PathEnd('error', 'data access to a function')
        raise PathEnd('error', 'access to an object that has been freed or left scope')

    def fork(self, st):
        n = State()
        n.objs = dict(st.objs)
        n.frames = [f.clone() for f in st.frames]
        n.pc = list(st.pc)
        n.facts = dict(st.facts)
        n.ndraws = st.ndraws
        n.draws = st.draws
        n.misc = dict(st.misc)
        n.nalloc = st.nalloc
        n.retval = st.retval
        n.tok = newtok()
        st.tok = newtok()
        self.forks += 1
        return n

    # ------------------------------------------------------------ constants / globals
    def constval(self, st, c):
        if isinstance(c, int):
            return c
        k = c[0]
        if k == 'null':
            return NULL
        if k == 'glob':
            return Ptr(self.globalobj(st, c[1]), c[2])
        if k == 'func':
            return Ptr(self.funcptr(c[1]), 0)
        if k == 'undef':
            t = c[1]
            if t.k in ('s', 'a', 'v'):
                n = t.n
                return tuple(UNDEF for _ in range(n))
            return UNDEF
        if k == 'zero':
            return self.zeroval(c[1])
        if k == 'agg':
            return tuple(self.constval(st, x) for x in c[1])
        if k == 'bytes':
            t = c[2]
            es = t.elem.size
            return tuple(int.from_bytes(c[1][i:i + es], 'little') for i in range(0, len(c[1]), es))
        if k == 'fp':
            return c
        if k == 'unk':
            return c
        if k == 'expr':
            a, b = self.constval(st, c[2]), self.constval(st, c[3])
            a = self.toint(a)
            b = self.toint(b)
            return (a + b if c[1] == 8 else a - b) & T.mask(c[4])
        raise Unsupported('constant %r' % (c,))

    def zeroval(self, t):
        if t.k == 's':
            return tuple(self.zeroval(f[1]) for f in t.fields)
        if t.k in ('a', 'v'):
            return tuple(self.zeroval(t.elem) for _ in range(t.n))
        if t.k == 'p':
            return NULL
        return 0

    def funcptr(self, name):
        o = self.funcobj.get(name)
        if o is None:
            o = self.nextobj
            self.nextobj += 1
            self.funcobj[name] = o
            self.objfunc[o] = name
        return o

    def globalobj(self, st, name):
        oid = self.globobj.get(name)
        if oid is None:
            oid = self.nextobj
            self.nextobj += 1
            self.globobj[name] = oid
        if oid not in st.objs:
            from .llvmc import L
            v = self.mod.globals.get(name)
            if v is None:
                raise Unsupported('global ' + name)
            t = self.mod.ty(L().GlobalGetValueType(v))
            o = Obj()
            o.id = oid
            o.size = t.size
            o.cells = {}
            o.kind = 'global'
            o.zero = False
            o.own = 0
            o.name = name
            o.const = bool(L().IsGlobalConstant(v))
            init = L().GetInitializer(v)
            if init:
                c = self.mod.const(init)
                if isinstance(c, tuple) and c[0] == 'zero':
                    o.zero = True
                else:
                    self.initcells(st, o, 0, c, t)
            else:
                if name.startswith('_ZTV') or name.startswith('_ZTI'):
                    o.size = 1 << 16
                o.zero = True
            st.objs[oid] = o
        return oid

    def initcells(self, st, o, off, c, t):
        if isinstance(c, tuple) and c[0] == 'undef':
            return
        if isinstance(c, tuple) and c[0] == 'zero':
            self.zerocells(o, off, t)
            return
        if isinstance(c, tuple) and c[0] == 'bytes':
            es = t.elem.size
            b = c[1]
            for i in range(0, len(b), es):
                o.cells[off + i] = (es, int.from_bytes(b[i:i + es], 'little'))
            return
        if isinstance(c, tuple) and c[0] == 'agg':
            if t.k == 's':
                for (fo, ft), x in zip(t.fields, c[1]):
                    self.initcells(st, o, off + fo, x, ft)
            else:
                for i, x in enumerate(c[1]):
                    self.initcells(st, o, off + i * t.elem.size, x, t.elem)
            return
        if isinstance(c, tuple) and c[0] in ('fp', 'unk'):
            return
        o.cells[off] = (t.size, self.constval(st, c))

    def zerocells(self, o, off, t):
        if t.k == 's':
            for fo, ft in t.fields:
                self.zerocells(o, off + fo, ft)
        elif t.k in ('a', 'v'):
            for i in range(t.n):
                self.zerocells(o, off + i * t.elem.size, t.elem)
        else:
            o.cells[off] = (t.size, NULL if t.k == 'p' else 0)

    # ------------------------------------------------------------ pointers
    def toint(self, v):
        """pointer -> 64-bit value"""
        if isinstance(v, Ptr):
            if isinstance(v.off, Term):
                return T.bvbin('add', v.off, v.obj << ADDRSH, 64)
            return ((v.obj << ADDRSH) + v.off) & T.mask(64)
        if isinstance(v, PIte):
            alts = v.alts
            r = self.toint(alts[-1][1])
            for c, p in reversed(alts[:-1]):
                r = T.ite(c, self.toint(p), r, 64)
            return r
        if isinstance(v, MpzPart):
            raise Unsupported('address of limbs as integer')
        return v

    def toptr(self, v):
        if isinstance(v, (Ptr, PIte, Undef)):
            return v
        if isinstance(v, int):
            o = v >> ADDRSH
            off = v & T.mask(ADDRSH)
            if off >> 31:
                off -= 1 << 32
                o += 1
            return Ptr(o, off)
        if isinstance(v, Term):
            if v.op == 'ite':
                return self.pite(v.args[0], self.toptr(v.args[1]), self.toptr(v.args[2]))
            if v.op == 'add' and not isinstance(v.args[1], Term):
                o = v.args[1] >> ADDRSH
                lo = v.args[1] & T.mask(ADDRSH)
                if 16 <= o < self.nextobj:
                    return Ptr(o, T.bvbin('add', v.args[0], lo, 64))
            lo, hi = T.bvrange(v)
            if lo >> ADDRSH == hi >> ADDRSH:
                return Ptr(lo >> ADDRSH, T.zext(T.extract(v, 31, 0), 32, 64))
        if isinstance(v, MpzPart):
            return v
        raise Unsupported('integer to pointer: %s' % T.show(v))

    def palts(self, p):
        if isinstance(p, PIte):
            return p.alts
        return [(True, p)]

    def pite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, Undef):
            return b
        if isinstance(b, Undef):
            return a
        if isinstance(a, MpzPart) or isinstance(b, MpzPart):
            if isinstance(a, MpzPart) and isinstance(b, MpzPart) and a.which == b.which:
                return MpzPart(T.iite(c, a.val, b.val), a.which)
            raise Unsupported('merge of limb pointers')
        out = {}
        order = []
        nc = T.bnot(c)
        for g, src in ((c, a), (nc, b)):
            for d, p in self.palts(src):
                k = (p.obj, p.off.id if isinstance(p.off, Term) else ('c', p.off))
                g2 = T.band(g, d)
                if g2 is False:
                    continue
                if k in out:
                    out[k] = (T.bor(out[k][0], g2), p)
                else:
                    out[k] = (g2, p)
                    order.append(k)
        if len(order) == 1:
            return out[order[0]][1]
        # same object, several offsets: symbolic offset would also do, alternatives are simpler
        return PIte([out[k] for k in order])

    def padd(self, p, off):
        """p + byte offset (int or 64-bit term)"""
        if isinstance(p, Ptr):
            if isinstance(off, int):
                if off == 0:
                    return p
                if isinstance(p.off, int):
                    return Ptr(p.obj, p.off + off)
                return Ptr(p.obj, T.bvbin('add', p.off, off & T.mask(64), 64))
            po = p.off & T.mask(64) if isinstance(p.off, int) else p.off
            r = T.bvbin('add', off, po, 64)
            if isinstance(r, int):
                r = sx(r, 64)
            return Ptr(p.obj, r)
        if isinstance(p, PIte):
            return PIte([(c, self.padd(q, off)) for c, q in p.alts])
        if isinstance(p, Undef):
            raise PathEnd('error', 'use of an uninitialised pointer')
        if isinstance(p, MpzPart):
            if off == 0:
                return p
            raise Unsupported('limb pointer arithmetic')
        if isinstance(p, int):
            return self.padd(self.toptr(p), off)
        raise Unsupported('pointer arithmetic on %r' % (p,))

    def resolve(self, st, p, what='access'):
        """-> list of (cond, Ptr with concrete offset); reports errors for null alternatives"""
        if isinstance(p, Ptr) and isinstance(p.off, int):
            return [(True, p)]
        if isinstance(p, Undef):
            raise PathEnd('error', 'use of an uninitialised pointer')
        if isinstance(p, int):
            p = self.toptr(p)
        out = []
        for c, q in self.palts(p):
            if c is not True:
                c = self.simp(st, c)
            if c is False:
                continue
            if isinstance(q, MpzPart):
                raise Unsupported('limb access')
            if isinstance(q.off, int):
                if q.obj == 0 or q.obj not in st.objs:
                    # invalid alternative: error when feasible
                    if c is True:
                        out.append((c, q))
                        continue
                    if self.feasible(st, c):
                        self.violation(st, c, 'memory: null or dangling pointer ' + what)
                    self.assume(st, T.bnot(c))
                    continue
                out.append((c, q))
            else:
                for v, d in self.enumerate(st, q.off, 64, c):
                    out.append((T.band(c, d), Ptr(q.obj, sx(v, 64))))
        if not out:
            raise PathEnd('infeasible')
        if len(out) == 1:
            out = [(True, out[0][1])]
        return out

    def enumerate(self, st, t, w, c=True, limit=80):
        """feasible values of a bit-vector term -> [(value, cond)]"""
        leaves = self._leaves(t, w)
        if leaves is not None and len(leaves) <= limit:
            out = []
            for v in leaves:
                d = T.band(c, T.eq(t, v, w))
                d = self.simp(st, d)
                if d is False:
                    continue
                if d is True or self.feasible(st, d):
                    out.append((v, T.eq(t, v, w)))
            return out
        out = []
        conds = []
        while True:
            r = self.solver.value(st.pc + ([c] if c is not True else []) + conds, t)
            if r is None:
                break
            out.append((r, T.eq(t, r, w)))
            conds.append(T.bnot(T.eq(t, r, w)))
            if len(out) > limit:
                raise Unsupported('more than %d values for a symbolic offset or size' % limit)
        return out

    def _leaves(self, t, w, depth=0):
        if isinstance(t, int):
            return [t]
        if depth > 12:
            return None
        if t.op == 'ite':
            a = self._leaves(t.args[1], w, depth + 1)
            b = self._leaves(t.args[2], w, depth + 1)
            if a is None or b is None:
                return None
            return sorted(set(a) | set(b))
        if t.op in ('add', 'mul', 'shl'):
            a = self._leaves(t.args[0], w, depth + 1)
            b = self._leaves(t.args[1], w, depth + 1)
            if a is None or b is None or len(a) * len(b) > 200:
                return None
            return sorted({T.bvbin(t.op, x, y, w) for x in a for y in b})
        if t.op == 'concat':
            acc = [0]
            for p, pw in t.args:
                l = self._leaves(p, pw, depth + 1)
                if l is None or len(acc) * len(l) > 200:
                    return None
                acc = [(x << pw) | y for x in acc for y in l]
            return sorted(set(acc))
        if t.op == 'sext':
            a = self._leaves(t.args[0], t.args[0].sort, depth + 1)
            return None if a is None else sorted({T.sext(x, t.args[0].sort, w) for x in a})
        if t.op == 'extract':
            a = self._leaves(t.args[0], t.args[0].sort, depth + 1)
            return None if a is None else sorted({T.extract(x, t.args[1], t.args[2]) for x in a})
        lo, hi = T.bvrange(t)
        if hi - lo <= 16:
            return list(range(lo, hi + 1))
        return None

    # ------------------------------------------------------------ memory
    def boundscheck(self, st, o, off, size, what):
        if off < 0 or off + size > o.size:
            raise PathEnd('error', 'out-of-bounds %s: offset %d size %d in %s of %d bytes' %
                          (what, off, size, o.kind + (' ' + o.name if o.name else ''), o.size))

    def load(self, st, p, size, asptr=False):
        if isinstance(p, Ptr) and isinstance(p.off, int):
            o = st.objs.get(p.obj)
            if o is None:
                self.memerror(st, p.obj)
            c = o.cells.get(p.off)
            if c is not None and c[0] == size:
                v = c[1]
                if asptr:
                    if not isinstance(v, (Ptr, PIte)):
                        return self.toptr(v)
                elif isinstance(v, (Ptr, PIte)):
                    return self.toint(v)
                return v
            self.boundscheck(st, o, p.off, size, 'read')
            v = self.slowload(st, o, p.off, size)
            if asptr:
                return self.toptr(v)
            if isinstance(v, (Ptr, PIte)):
                return self.toint(v)
            return v
        if isinstance(p, Ptr):
            # symbolic offset
            o = st.objs.get(p.obj)
            if o is None:
                self.memerror(st, p.obj)
            r = self.tableload(st, o, p, size)
            if r is not None:
                return r
        if isinstance(p, MpzPart):
            if size == 8:
                # lowest limb (undefined for zero: read anyway as 0)
                return T.i2b(T.iite(T.ige0(p.val), p.val, T.ineg(p.val)), 64)
            raise Unsupported('limb read')
        alts = self.resolve(st, p, 'read')
        vals = [(c, self.load(st, q, size, asptr)) for c, q in alts]
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            r = self.mergeval(c, v, r, size)
        return r

    def tableload(self, st, o, p, size):
        """symbolic index into an array of concrete elements"""
        off = p.off
        # off = base + scale*idx
        lo, hi = T.bvrange(off)
        if hi - lo < 4 * size:
            return None
        n = o.size // size
        sh = size.bit_length() - 1
        if 1 << sh != size or n < 2:
            return None
        nb = (n - 1).bit_length()
        tb = self.tables.get((o.id, size)) if o.const else None
        if tb is None:
            vals = []
            for i in range(n):
                c = o.cells.get(i * size)
                if c is None or c[0] != size or not isinstance(c[1], int):
                    return None
                vals.append(c[1])
            tb = tuple(vals + [0] * ((1 << nb) - n))
            if o.const:
                self.tables[o.id, size] = tb
        if sh and not (isinstance(T.extract(off, sh - 1, 0), int) and T.extract(off, sh - 1, 0) == 0):
            return None
        idx = T.extract(off, 63, sh)
        if hi >= o.size:
            bad = T.bnot(T.ult(off, o.size, 64))
            bad = self.simp(st, bad)
            if bad is not False and self.feasible(st, bad):
                self.violation(st, bad, 'memory: out-of-bounds read of table ' + o.name)
            self.assume(st, T.bnot(bad))
        idx = T.extract(off, sh + nb - 1, sh)
        return T.select(tb, idx, size * 8)

    def cover(self, o, off):
        """cell covering byte off -> (start,size,val) or None"""
        cells = o.cells
        c = cells.get(off)
        if c is not None:
            return off, c[0], c[1]
        for s in range(off - 1, off - 64, -1):
            c = cells.get(s)
            if c is not None:
                if s + c[0] > off:
                    return s, c[0], c[1]
                return None
        return None

    def undefbyte(self):
        self.undefs += 1
        return T.var('undef!%d' % self.undefs, 8)

    def slowload(self, st, o, off, size):
        # mpz parts
        cov = self.cover(o, off)
        if cov and isinstance(cov[2], Mpz):
            s, n, v = cov
            d = off - s
            if d == 0 and size == 16:
                return v
            if d == 8 and size == 8:
                return MpzPart(v.val, 8)
            if d == 4 and size == 4:
                return self.mpzsize(v.val)
            if d == 0 and size == 4:
                return MpzPart(v.val, 0)
            if d == 0 and size == 8:
                return MpzPart(v.val, 1)
            raise Unsupported('partial read of an mpz')
        out = []
        i = off
        end = off + size
        anydef = False
        while i < end:
            cov = self.cover(o, i)
            if cov is None:
                if o.zero:
                    out.append((0, 8))
                    anydef = True
                else:
                    out.append((None, 8))
                i += 1
                continue
            s, n, v = cov
            a = i - s
            b = min(n, end - s)
            if isinstance(v, (Ptr, PIte)):
                v = self.toint(v)
            if isinstance(v, Undef):
                for _ in range(b - a):
                    out.append((None, 8))
            elif isinstance(v, (Mpz, MpzPart)):
                raise Unsupported('read across an mpz')
            else:
                if isinstance(v, Term) and v.sort == 'B':
                    v = T.ite(v, 1, 0, 8 * n)
                out.append((T.extract(v, 8 * b - 1, 8 * a), 8 * (b - a)))
                anydef = True
            i = s + b
        if not anydef:
            return UNDEF
        parts = [((self.undefbyte() if p is None else p), w) for p, w in reversed(out)]
        return T.concat(parts)

    def mpzsize(self, v):
        """_mp_size field (sign * number of limbs)"""
        if isinstance(v, int):
            n = (abs(v).bit_length() + 63) // 64
            return (-n if v < 0 else n) & T.mask(32)
        lo, hi = T.irange(v)
        if lo is not None and hi is not None and max(abs(lo), abs(hi)) < 1 << 4096:
            n = (max(abs(lo), abs(hi)).bit_length() + 63) // 64
            r = 0
            if hi > 0:
                r = 0
                for k in range(1, n + 1):
                    r = T.ite(T.ige(v, 1 << (64 * (k - 1))), k, r, 32)
                # innermost-first construction gives the largest k that applies
            if lo < 0:
                rn = r
                for k in range(1, n + 1):
                    rn = T.ite(T.ige(T.ineg(v), 1 << (64 * (k - 1))), (-k) & T.mask(32), rn, 32)
                r = rn
            return r
        s = T.mk('iuf', ('mpzsize', v), 'I')
        if s.aux is None:
            s.aux = True
            s.lo, s.hi = 1, (1 << 31) - 1
        return T.ite(T.ieq(v, 0), 0, T.ite(T.ige0(v), T.i2b(s, 32), T.i2b(T.ineg(s), 32), 32), 32)

    def store(self, st, p, size, v):
        if isinstance(p, Ptr) and isinstance(p.off, int):
            o = st.objs.get(p.obj)
            if o is None:
                self.memerror(st, p.obj)
            self.boundscheck(st, o, p.off, size, 'write')
            if o.const:
                raise PathEnd('error', 'write to constant ' + o.name)
            if o.own != st.tok:
                o = o.clone(st.tok)
                st.objs[p.obj] = o
            c = o.cells.get(p.off)
            if c is None or c[0] != size:
                if size == 4 and v.__class__ is int and c is None:
                    m = o.cells.get(p.off - 4)
                    if m is not None and m[0] == 16 and isinstance(m[1], Mpz):
                        # the size field: inlined assignment of 0, negation
                        if v == 0:
                            o.cells[p.off - 4] = (16, Mpz(0))
                            return
                        old = self.slowload(st, o, p.off, 4)
                        if old == v:
                            return
                        if old.__class__ is int and (old + v) & 0xffffffff == 0:
                            o.cells[p.off - 4] = (16, Mpz(T.ineg(m[1].val)))
                            return
                self.clear(o, p.off, size)
            o.cells[p.off] = (size, v)
            if isinstance(v, MpzPart) and v.which in (8, 1):
                base = p.off - (8 if v.which == 8 else 0)
                oth = o.cells.get(base + 8 if v.which == 1 else base)
                if v.which == 8:
                    a, b = o.cells.get(base), o.cells.get(base + 4)
                    if (a is not None and a[0] == 8 and isinstance(a[1], MpzPart)) or \
                            (a is not None and b is not None and isinstance(a[1], MpzPart)):
                        self.clear(o, base, 16)
                        o.cells[base] = (16, Mpz(v.val))
                elif oth is not None and isinstance(oth[1], MpzPart) and oth[1].which == 8:
                    self.clear(o, base, 16)
                    o.cells[base] = (16, Mpz(v.val))
            return
        if isinstance(p, MpzPart):
            raise Unsupported('write through a limb pointer')
        alts = self.resolve(st, p, 'write')
        if len(alts) == 1:
            return self.store(st, alts[0][1], size, v)
        for c, q in alts:
            o = st.objs.get(q.obj)
            if o is None:
                self.memerror(st, q.obj)
            old = self.slowload(st, o, q.off, size) if o.cells.get(q.off, (None,))[0] != size else o.cells[q.off][1]
            self.store(st, q, size, self.mergeval(c, v, old, size))

    def clear(self, o, off, size):
        """remove cells overlapping [off, off+size), keeping the other parts"""
        cells = o.cells
        end = off + size
        cov = None
        if off not in cells:
            cov = self.cover(o, off)
        if cov is not None:
            s, n, v = cov
            del cells[s]
            if isinstance(v, (Mpz, MpzPart)):
                raise Unsupported('partial overwrite of an mpz')
            self.splitback(cells, s, n, v, s, off)
            if s + n > end:
                self.splitback(cells, s, n, v, end, s + n)
        if size <= 64 or len(cells) > size:
            rng = [i for i in range(off, end) if i in cells]
        else:
            rng = [i for i in cells if off <= i < end]
        for i in rng:
            n, v = cells.pop(i)
            if i + n > end:
                if isinstance(v, (Mpz, MpzPart)):
                    raise Unsupported('partial overwrite of an mpz')
                self.splitback(cells, i, n, v, end, i + n)

    def splitback(self, cells, s, n, v, a, b):
        """re-insert bytes [a,b) of the cell (s,n,v)"""
        if a >= b or isinstance(v, Undef):
            return
        if isinstance(v, (Ptr, PIte)):
            v = self.toint(v)
        if isinstance(v, Term) and v.sort == 'B':
            v = T.ite(v, 1, 0, 8 * n)
        cells[a] = (b - a, T.extract(v, 8 * (b - s) - 1, 8 * (a - s)))

    def mergeval(self, c, a, b, size=None):
        """ite(c, a, b) over all value kinds"""
        if a is b:
            return a
        if isinstance(a, int) and isinstance(b, int):
            if a == b:
                return a
            if size is None:
                raise Unsupported('merge without width')
            return T.ite(c, a, b, 8 * size)
        if isinstance(a, (Undef,)) or a is None:
            return b if a is None else (UNDEF if not isinstance(b, Undef) else a)
        if isinstance(b, (Undef,)) or b is None:
            return a if b is None else UNDEF
        if isinstance(a, Mpz) and isinstance(b, Mpz):
            if a.val is b.val or (isinstance(a.val, int) and isinstance(b.val, int) and a.val == b.val):
                return a
            return Mpz(T.iite(c, a.val, b.val))
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and isinstance(a.off, int) and a.off == b.off:
                return a
            if isinstance(a, (Mpz, MpzPart)) or isinstance(b, (Mpz, MpzPart)):
                raise Unsupported('merge of pointer and mpz')
            return self.pite(c, self.toptr(a), self.toptr(b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(self.mergeval(c, x, y, None if not isinstance(x, Term) and not isinstance(y, Term) else None) for x, y in zip(a, b))
        if isinstance(a, MpzPart) and isinstance(b, MpzPart) and a.which == b.which:
            return MpzPart(T.iite(c, a.val, b.val), a.which)
        if isinstance(a, (Mpz, MpzPart)) or isinstance(b, (Mpz, MpzPart)):
            raise Unsupported('merge of mpz and other data')
        ta = a if isinstance(a, Term) else b
        if ta.sort == 'B':
            A = a if isinstance(a, Term) else bool(a)
            B = b if isinstance(b, Term) else bool(b)
            if isinstance(A, Term) and A.sort != 'B':
                A = T.bv2bool(T.extract(A, 0, 0))
            if isinstance(B, Term) and B.sort != 'B':
                B = T.bv2bool(T.extract(B, 0, 0))
            if size is not None:
                # byte-sized cell holding a Bool
                return T.ite(c, self.asbv(a, 8 * size), self.asbv(b, 8 * size), 8 * size)
            return T.bool2i(T.bite(c, A, B))
        w = ta.sort
        if isinstance(a, Term) and isinstance(b, Term) and a.sort != b.sort:
            if b.sort == 'B':
                b = T.ite(b, 1, 0, w)
            else:
                raise Unsupported('merge of different widths')
        return T.ite(c, a, b, w)

    def asbv(self, a, w):
        if isinstance(a, Term) and a.sort == 'B':
            return T.ite(a, 1, 0, w)
        return a

    def memcpy(self, st, dst, src, n):
        if n == 0:
            return
        d_alts = self.resolve(st, dst, 'write')
        s_alts = self.resolve(st, src, 'read')
        if len(d_alts) == 1 and len(s_alts) == 1:
            self._copy1(st, d_alts[0][1], s_alts[0][1], n)
            return
        # gather source cell lists, merge when same shape
        lists = [(c, self._cells(st, q, n)) for c, q in s_alts]
        shape = [x[:2] for x in lists[0][1]]
        for c, l in lists[1:]:
            if [x[:2] for x in l] != shape:
                lists = [(c2, self._bytes(st, q, n)) for c2, q in s_alts]
                break
        cur = lists[-1][1]
        for c, l in reversed(lists[:-1]):
            cur = [(o, s, self.mergeval(c, v1, v2, s)) for (o, s, v1), (_, _, v2) in zip(l, cur)]
        for c, q in d_alts:
            for o, s, v in cur:
                pp = Ptr(q.obj, q.off + o)
                if c is True:
                    self.store(st, pp, s, v)
                else:
                    ob = st.objs.get(q.obj)
                    if ob is None:
                        self.memerror(st, q.obj)
                    self.boundscheck(st, ob, q.off + o, s, 'write')
                    ce = ob.cells.get(q.off + o)
                    old = ce[1] if ce is not None and ce[0] == s else self.slowload(st, ob, q.off + o, s)
                    self.store(st, pp, s, self.mergeval(c, v, old, s))

    def _cells(self, st, q, n):
        o = st.objs.get(q.obj)
        if o is None:
            self.memerror(st, q.obj)
        self.boundscheck(st, o, q.off, n, 'read')
        out = []
        i = q.off
        end = q.off + n
        cells = o.cells
        if len(cells) == 0 and not o.zero:
            return [(k, 1, UNDEF) for k in range(n)] if n <= 16 else [(0, n, UNDEF)]
        while i < end:
            c = cells.get(i)
            if c is not None and i + c[0] <= end:
                out.append((i - q.off, c[0], c[1]))
                i += c[0]
                continue
            cov = self.cover(o, i)
            if cov is None:
                out.append((i - q.off, 1, 0 if o.zero else UNDEF))
                i += 1
            else:
                s, m, v = cov
                b = min(end, s + m)
                if isinstance(v, Undef):
                    for k in range(i, b):
                        out.append((k - q.off, 1, UNDEF))
                else:
                    out.append((i - q.off, b - i, self.slowload(st, o, i, b - i)))
                i = b
        return out

    def _bytes(self, st, q, n):
        o = st.objs.get(q.obj)
        if o is None:
            self.memerror(st, q.obj)
        return [(i, 1, self.slowload(st, o, q.off + i, 1) if o.cells.get(q.off + i, (0,))[0] != 1 else o.cells[q.off + i][1])
                for i in range(n)]

    def _copy1(self, st, d, s, n):
        lst = self._cells(st, s, n)
        o = st.objs.get(d.obj)
        if o is None:
            self.memerror(st, d.obj)
        self.boundscheck(st, o, d.off, n, 'write')
        if o.const:
            raise PathEnd('error', 'write to constant ' + o.name)
        o = self.wobj(st, d.obj)
        self.clear(o, d.off, n)
        cells = o.cells
        base = d.off
        for off, sz, v in lst:
            if isinstance(v, Undef):
                if o.zero:
                    cells[base + off] = (sz, v)
                continue
            cells[base + off] = (sz, v)

    def readmpz(self, st, p):
        if isinstance(p, Ptr) and isinstance(p.off, int):
            o = st.objs.get(p.obj)
            if o is None:
                self.memerror(st, p.obj)
            c = o.cells.get(p.off)
            if c is not None and isinstance(c[1], Mpz):
                return c[1].val
            self.boundscheck(st, o, p.off, 16, 'read')
            if c is not None and isinstance(c[1], MpzPart):
                d = o.cells.get(p.off + 8)
                if d is not None and isinstance(d[1], MpzPart):
                    return d[1].val
            # statically initialised or hand-built mpz
            v = self.rawmpz(st, p)
            if v is not None:
                return v
            raise PathEnd('error', 'use of an uninitialised mpz')
        alts = self.resolve(st, p, 'mpz read')
        vals = [(c, self.readmpz(st, q)) for c, q in alts]
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            r = T.iite(c, v, r)
        return r

    def rawmpz(self, st, p):
        """mpz_t assembled by hand (mpz_roinit style): size and limbs in memory"""
        try:
            sz = self.load(st, self.padd(p, 4), 4)
            d = self.load(st, self.padd(p, 8), 8, True)
        except (PathEnd, Unsupported):
            return None
        if not isinstance(sz, int) or not isinstance(d, Ptr):
            return None
        n = sx(sz, 32)
        acc = 0
        for i in range(abs(n)):
            l = self.load(st, self.padd(d, 8 * i), 8)
            if isinstance(l, Undef):
                return None
            acc = T.iadd(acc, T.imul(T.b2i(l, 64), 1 << (64 * i)))
        return T.ineg(acc) if n < 0 else acc

    def writempz(self, st, p, v):
        if isinstance(p, Ptr) and isinstance(p.off, int):
            o = st.objs.get(p.obj)
            if o is None:
                self.memerror(st, p.obj)
            if p.off < 0 or p.off + 16 > o.size:
                self.boundscheck(st, o, p.off, 16, 'write')
            if o.own != st.tok:
                o = o.clone(st.tok)
                st.objs[p.obj] = o
            c = o.cells.get(p.off)
            if c is None or c[0] != 16:
                try:
                    self.clear(o, p.off, 16)
                except Unsupported:
                    for i in range(p.off, p.off + 16):
                        o.cells.pop(i, None)
            o.cells[p.off] = (16, Mpz(v))
            return
        alts = self.resolve(st, p, 'mpz write')
        if len(alts) == 1:
            return self.writempz(st, alts[0][1], v)
        for c, q in alts:
            o = st.objs.get(q.obj)
            ce = o.cells.get(q.off) if o is not None else None
            old = self.readmpz(st, q)
            self.writempz(st, q, T.iite(c, v, old))

    def requirempz(self, st, p):
        """operand written by an mpz function must be initialised"""
        self.readmpz(st, p)

    # ------------------------------------------------------------ path condition
    def boundkey(self, c):
        """ige0(P + k) / ieq(P + k) -> (P without constant and sign, sign, k)"""
        if c.op == 'and':
            # all of several non-negative values are zero: their sum is
            d = {}
            for x in c.args:
                if x.op != 'ieq':
                    return None
                lo, hi = T.irange(x.args[0])
                s = 1 if lo is not None and lo >= 0 else -1 if hi is not None and hi <= 0 else 0
                if not s:
                    return None
                for m, v in T.P(x.args[0]).items():
                    d[m] = d.get(m, 0) + s * v
            d = {m: v for m, v in d.items() if v}
        else:
            d = dict(T.P(c.args[0]))
        k = d.pop((), 0)
        if not d:
            return None
        lead = min(d, key=lambda m: tuple(x.id for x in m))
        s = 1 if d[lead] > 0 else -1
        if s < 0:
            d = {m: -v for m, v in d.items()}
        return T.mkpoly(d), s, k

    def boundsimp(self, st, c):
        b = st.misc.get('bounds2')
        if not b or c.op not in ('ieq', 'ige0', 'and'):
            return c
        r = self.boundkey(c)
        if r is None or r[0] not in b:
            return c
        key, s, k = r
        lo, hi = b[key]
        if c.op != 'ige0':
            v = -s * k
            if v < lo or v > hi:
                return False
            return True if lo == hi else c
        # s*P + k >= 0
        l, h = (lo + k, hi + k) if s > 0 else (k - hi, k - lo)
        return True if l >= 0 else False if h < 0 else c

    def boundassume(self, st, c):
        """record an interval instead of a list of excluded values"""
        neg = c.op in ('not', 'or')
        x = T.bnot(c) if neg else c
        if x.op not in ('ige0', 'ieq', 'and'):
            return False
        r = self.boundkey(x)
        if r is None:
            return False
        key, s, k = r
        b = dict(st.misc.get('bounds2', {}))
        if key in b:
            lo, hi = b[key]
        else:
            if x.op != 'ige0':
                return False
            lo, hi = T.irange(key)
            if lo is None or hi is None:
                return False
        old = T.band(T.ige(key, lo), T.ige(hi, key)) if key in b else None
        if x.op != 'ige0' and not neg:
            lo = hi = -s * k
        elif x.op != 'ige0':
            v = -s * k
            if v == lo:
                lo += 1
            elif v == hi:
                hi -= 1
            else:
                return False
        elif neg:
            return False
        elif s > 0:
            lo = max(lo, -k)
        else:
            hi = min(hi, k)
        if lo > hi:
            raise PathEnd('infeasible')
        b[key] = (lo, hi)
        st.misc['bounds2'] = b
        st.pc = [y for y in st.pc if y is not old]
        n = T.band(T.ige(key, lo), T.ige(hi, key))
        if n is not True:
            st.pc.append(n)
        return True

    def simp(self, st, c, memo=None):
        """simplify a Bool by the literal facts of the path"""
        if c is True or c is False:
            return c
        if c.op in ('and', 'or', 'bite', 'iff', 'not'):
            if memo is None:
                memo = {}
            r = memo.get(c.id)
            if r is None:
                r = memo[c.id] = self.simp1(st, c, memo)
            return r
        return self.simp1(st, c, memo)

    def simp1(self, st, c, memo):
        if c.op in ('ieq', 'ige0') and 'bounds2' in st.misc:
            r = st.facts.get(c.id)
            return self.boundsimp(st, c) if r is None else r
        f = st.facts
        if not f and 'bounds2' not in st.misc:
            return c
        v = f.get(c.id)
        if v is not None:
            return v
        op = c.op
        if op == 'not':
            v = self.simp(st, c.args[0], memo)
            return c if v is c.args[0] else T.bnot(v)
        if op in ('and', 'or'):
            if len(c.args) > 64:
                return c
            a = [self.simp(st, x, memo) for x in c.args]
            if all(x is y for x, y in zip(a, c.args)):
                if 'bounds2' not in st.misc:
                    return c
                return self.boundsimp(st, c) if op == 'and' else T.bnot(self.boundsimp(st, T.bnot(c)))
            return T.band(*a) if op == 'and' else T.bor(*a)
        if op in ('bite', 'iff'):
            a = [self.simp(st, x, memo) for x in c.args]
            if all(x is y for x, y in zip(a, c.args)):
                return c
            return T.bite(*a) if op == 'bite' else T.biff(*a)
        return c

    def assume(self, st, c):
        c = self.simp(st, c)
        if c is True:
            return
        if c is False:
            raise PathEnd('infeasible')
        if self.opts.get('intervals') and c.op in ('ige0', 'not', 'or', 'ieq') and self.boundassume(st, c):
            return
        st.pc.append(c)
        self._fact(st, c, True)

    def _fact(self, st, c, v):
        if c.op == 'not':
            return self._fact(st, c.args[0], not v)
        st.facts[c.id] = v
        if c.op == 'and' and v:
            for x in c.args:
                self._fact(st, x, True)
        elif c.op == 'or' and not v:
            for x in c.args:
                self._fact(st, x, False)

    def feasible(self, st, c):
        if c is True:
            return True
        if c is False:
            return False
        if 'bounds2' in st.misc:
            x = T.bnot(c) if c.op in ('not', 'or') else c
            if x.op in ('ieq', 'and'):
                r = self.boundkey(x)
                if r is not None and r[0] in st.misc['bounds2']:
                    return True
        return self.solver.feasible(st.pc, c)

    def violation(self, st, cond, label):
        """candidate violation under pc and cond"""
        r = self.solver.check(st.pc + ([cond] if cond is not True else []), want_model=True)
        self.checks.append((label, r[0]))
        if r[0] == 'unsat':
            return False
        self.cands.append(dict(label=label, status=r[0], model=r[1], draws=st.draws, path=len(st.pc),
                               inputs=dict(st.misc.get('inputs', {}))))
        if r[0] == 'sat' and self.opts.get('stop_first', True) and len(self.cands) >= self.opts.get('maxcands', 12):
            raise StopRun()
        return True

    # ------------------------------------------------------------ merge
    def mergestates(self, a, b, base):
        """merge b into a when their control state is equal; base = common prefix length of the path conditions"""
        if len(a.frames) != len(b.frames) or a.ndraws != b.ndraws:
            return None
        for f, g in zip(a.frames, b.frames):
            if f.fn is not g.fn or f.block != g.block or f.ip != g.ip or f.dest != g.dest:
                return None
        for k in set(a.misc) | set(b.misc):
            if k == 'inputs':
                continue
            if a.misc.get(k) != b.misc.get(k):
                return None
        sa, sb = a.pc[base:], b.pc[base:]
        ca, cb = T.band(*sa), T.band(*sb)
        # discriminator
        c = ca
        if sa and sb and sa[0] is T.bnot(sb[0]):
            c = sa[0]
        try:
            newregs = []
            for f, g in zip(a.frames, b.frames):
                upd = []
                fr, gr = f.regs, g.regs
                if fr is not gr:
                    for i, (x, y) in enumerate(zip(fr, gr)):
                        if x is y:
                            continue
                        if x is None:
                            upd.append((i, y))
                            continue
                        if y is None:
                            continue
                        if isinstance(x, int) and isinstance(y, int):
                            if x == y:
                                continue
                            w = self.regwidth(f.fn, i)
                            if w == 1:
                                upd.append((i, T.bool2i(T.bite(c, bool(x), bool(y)))))
                            else:
                                upd.append((i, T.ite(c, x, y, w)))
                            continue
                        upd.append((i, self.mergereg(c, x, y)))
                newregs.append(upd)
            newobjs = []
            for oid, o in a.objs.items():
                p = b.objs.get(oid)
                if p is None or p is o:
                    continue
                upd = self.mergeobj(c, o, p, a, b)
                if upd is not None:
                    newobjs.append((oid, upd))
        except Unsupported as e:
            if self.opts.get('debugmerge'):
                print('merge failed:', e)
            return None
        for (f, upd) in zip(a.frames, newregs):
            for i, v in upd:
                f.regs[i] = v
        for oid, cells in newobjs:
            o = self.wobj(a, oid)
            o.cells = cells
        for oid, p in b.objs.items():
            if oid not in a.objs:
                a.objs[oid] = p
        for f, g in zip(a.frames, b.frames):
            if len(g.allocas) > len(f.allocas):
                f.allocas = list(g.allocas)
        inp = dict(a.misc.get('inputs', {}))
        inp.update(b.misc.get('inputs', {}))
        a.misc['inputs'] = inp
        na = State()
        a.pc = a.pc[:base]
        a.facts = self.refacts(a.pc)
        d = T.bor(ca, cb)
        a.tok = newtok()
        if d is not True:
            try:
                self.assume(a, d)
            except PathEnd:
                pass
        if a.draws is not b.draws:
            a.draws = tuple(x if x is y else x for x, y in zip(a.draws, b.draws))
        self.merges += 1
        return a

    def refacts(self, pc):
        st = State()
        st.facts = {}
        for c in pc:
            self._fact(st, c, True)
        return st.facts

    def mergereg(self, c, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and (not x or x[0] not in ('fp', 'unk')):
            out = []
            for p, q in zip(x, y):
                if isinstance(p, int) and isinstance(q, int):
                    if p != q:
                        raise Unsupported('aggregate merge')
                    out.append(p)
                else:
                    out.append(self.mergereg(c, p, q))
            return tuple(out)
        return self.mergeval(c, x, y)

    def mergeobj(self, c, o, p, sa, sb):
        if o.cells == p.cells and o.zero == p.zero:
            return None
        if o.zero != p.zero or o.size != p.size:
            raise Unsupported('objects differ')
        new = {}
        A, B = o.cells, p.cells
        same_layout = True
        for k, cell in A.items():
            d = B.get(k)
            if d is None:
                same_layout = False
                break
            if d[0] != cell[0]:
                same_layout = False
                break
        if same_layout and len(A) != len(B):
            same_layout = False
        if same_layout:
            for k, (n, v) in A.items():
                v2 = B[k][1]
                if v is v2:
                    new[k] = (n, v)
                else:
                    new[k] = (n, self.mergeval(c, v, v2, n))
            return new
        # different layouts: keep cells equal in shape, split the rest into bytes
        keys = set(A) | set(B)
        bad = set()
        for k in keys:
            ca, cb = A.get(k), B.get(k)
            if ca is not None and cb is not None and ca[0] == cb[0]:
                new[k] = (ca[0], self.mergeval(c, ca[1], cb[1], ca[0]))
            else:
                n = (ca or cb)[0]
                n = max(ca[0] if ca else 0, cb[0] if cb else 0)
                only = ca if cb is None else (cb if ca is None else None)
                for i in range(k, k + n):
                    bad.add(i)
        for k, (n, v) in list(new.items()):
            if any(i in bad for i in range(k, k + n)):
                if isinstance(v, (Mpz, MpzPart)):
                    raise Unsupported('mpz layouts differ')
                del new[k]
                bad.update(range(k, k + n))
        if bad:
            # cells present on one side only and uninitialised on the other: value is undefined on the other side
            done = set()
            for i in sorted(bad):
                if i in done:
                    continue
                ca, cb = A.get(i), B.get(i)
                one = None
                if ca is not None and not self.overlaps(p, i, ca[0]):
                    one = ca
                elif cb is not None and not self.overlaps(o, i, cb[0]):
                    one = cb
                if one is not None:
                    # uninitialised on the other side: reading it there would be an error of its own; keep the value
                    if o.zero:
                        if isinstance(one[1], (Mpz, MpzPart)):
                            raise Unsupported('mpz layouts differ')
                        z = NULL if isinstance(one[1], (Ptr, PIte)) else 0
                        new[i] = (one[0], self.mergeval(c, one[1], z, one[0]) if one is ca else self.mergeval(c, z, one[1], one[0]))
                    else:
                        new[i] = one
                    done.update(range(i, i + one[0]))
                    continue
                x = self.slowload(sa, o, i, 1)
                y = self.slowload(sb, p, i, 1)
                v = self.mergeval(c, x, y, 1)
                if not isinstance(v, Undef):
                    new[i] = (1, v)
                done.add(i)
        return new

    def overlaps(self, o, off, n):
        if self.cover(o, off) is not None:
            return True
        return any(i in o.cells for i in range(off, off + n))

    def regwidth(self, fn, i):
        w = fn.mod.regw.get((fn.name, i)) if hasattr(fn.mod, 'regw') else None
        if w is None:
            w = self._regw(fn, i)
        return w

    def _regw(self, fn, i):
        m = fn.mod
        if not hasattr(m, 'regw'):
            m.regw = {}
        for k, t in enumerate(fn.ptypes):
            m.regw[(fn.name, k)] = t.w
        for b in fn.blocks:
            for d, inc, t in b.phis:
                m.regw[(fn.name, d)] = t.w
            for ins in b.insts:
                op = ins[0]
                if op == 42:
                    m.regw[(fn.name, ins[1])] = 1
                elif op == 45:
                    m.regw[(fn.name, ins[1])] = ins[4].w
                elif 8 <= op <= 25 or op == 46 or op == 27 or op in (30, 31, 32, 39, 40, 41, 68):
                    m.regw[(fn.name, ins[1])] = ins[-1].w
                elif op == 53:
                    m.regw.setdefault((fn.name, ins[1]), 64)
        r = m.regw.get((fn.name, i))
        if r is None:
            raise Unsupported('register width')
        return r

    # ------------------------------------------------------------ running
    def call_function(self, st, name, args):
        """run a function to completion in st; returns list of (state, retval)"""
        fn = self.mod.get(name)
        base = len(st.frames)
        st.retval = None
        self.push(st, fn, args, None)
        out = self.run(st, base + 1, -1)
        return out

    def push(self, st, fn, args, dest):
        f = Frame()
        f.fn = fn
        lc = fn.model
        if fn.index:
            regs = [None] * fn.index
        else:
            regs = []
        for i, a in enumerate(args[:fn.nparams]):
            regs[i] = a
        regs.extend(self.fconsts(st, fn))
        f.regs = regs
        f.block = 0
        f.ip = 0
        f.dest = dest
        f.allocas = []
        st.frames.append(f)
        if len(st.frames) > 400:
            raise Unsupported('call depth')
        self.executed.add(fn.name)

    def fconsts(self, st, fn):
        cs = fn.loopblocks if fn_has(fn, 'loopblocks') else None
        if cs is None:
            cs = []
            gl = []
            for c in fn.consts:
                v = self.constval(st, c)
                cs.append(v)
                if isinstance(c, tuple) and c[0] == 'glob':
                    gl.append(c[1])
            fn.loopblocks = cs
            fn.blocknames = gl
        for g in fn.blocknames:
            if self.globobj[g] not in st.objs:
                self.globalobj(st, g)
        return cs

    def enter(self, f, target):
        B = f.fn.blocks[target]
        if B.phis:
            regs = f.regs
            cur = f.block
            vals = [(d, regs[inc[cur]]) for d, inc, t in B.phis]
            for d, v in vals:
                regs[d] = v
        f.block = target
        f.ip = 0

    def run(self, st, depth, stop):
        """run until the frame at `depth` returns (stop == -1) or enters block `stop`; -> arriving states"""
        arrived = []
        work = [st]
        while work:
            s = work.pop()
            try:
                r = self.exec(s, depth, stop)
            except PathEnd as e:
                self.endpath(s, e)
                continue
            except Unsupported as e:
                self.undecided(s, e)
                continue
            if r is None:
                arrived.append(s)
            elif r.__class__ is _Arrived:
                arrived.extend(r)
            else:
                work.extend(reversed(r))
        return arrived

    def undecided(self, s, e):
        """leave this path undecided; the others may still give a counterexample"""
        m = str(e)
        if m == 'time limit' or len(self.incomplete) >= 20:
            raise e
        self.incomplete.append(m + self.where(s))

    def endpath(self, s, e):
        self.paths += 1
        if e.kind == 'error':
            self.violation(s, True, 'error: ' + e.msg + self.where(s))
        elif e.kind == 'bound':
            self.assumptions[e.msg] = self.assumptions.get(e.msg, 0) + 1

    def where(self, s):
        names = [f.fn.dem for f in s.frames[-3:]]
        return ' in ' + ' < '.join(n.split('(')[0][-60:] for n in reversed(names))

    def domerge(self, states, base):
        if len(states) <= 1 or not self.opts['merge']:
            return states
        out = []
        for s in states:
            for i, o in enumerate(out):
                m = self.mergestates(o, s, base)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(s)
        return out

    def branch(self, s, conds_targets):
        """symbolic branch: [(cond, target)] -> list of states after the join"""
        f = s.frames[-1]
        d = len(s.frames)
        join = f.fn.ipdom[f.block]
        base = len(s.pc)
        feas = []
        for c, t in conds_targets:
            c = self.simp(s, c)
            if c is False:
                continue
            if c is True:
                feas = [(c, t)]
                break
            feas.append((c, t))
        if len(feas) > 1:
            ok = []
            for i, (c, t) in enumerate(feas):
                if i == len(feas) - 1 and not ok:
                    ok.append((c, t))
                elif self.feasible(s, c):
                    ok.append((c, t))
            feas = ok
        if not feas:
            raise PathEnd('infeasible')
        if len(feas) == 1:
            if feas[0][0] is not True:
                # implied by the path condition: recording it is harmless and speeds up later tests
                self._fact(s, feas[0][0], True)
            self.enter(f, feas[0][1])
            return None
        subs = []
        res = []
        n = len(feas)
        for i, (c, t) in enumerate(feas):
            x = s if i == n - 1 else self.fork(s)
            subs.append((x, c, t))
        if not self.opts['merge']:
            for x, c, t in subs:
                try:
                    self.assume(x, c)
                    self.enter(x.frames[-1], t)
                    res.append(x)
                except PathEnd as e:
                    self.endpath(x, e)
            return res, d, -2
        for x, c, t in subs:
            try:
                self.assume(x, c)
                self.enter(x.frames[-1], t)
                if t == join:
                    res.append(x)
                    continue
            except PathEnd as e:
                self.endpath(x, e)
                continue
            res.extend(self.run(x, d, join))
        return self.domerge(res, base), d, join

    def exec(self, s, depth, stop):
        """run s; None when it arrived; _Arrived(states) when all of them did; else states to continue with"""
        frames = s.frames
        f = frames[-1]
        regs = f.regs
        while True:
            if len(frames) < depth:
                return None
            blk = f.fn.blocks[f.block]
            insts = blk.insts
            ip = f.ip
            n = len(insts)
            while ip < n:
                ins = insts[ip]
                op = ins[0]
                ip += 1
                self.steps += 1
                if op == 45:
                    f.ip = ip
                    r = self.docall(s, ins)
                    if r is None:
                        # pushed a frame or finished
                        if frames[-1] is not f:
                            f = frames[-1]
                            regs = f.regs
                            break
                        continue
                    return r
                elif op == 0x102:
                    t = ins[1]
                    if f.fn.blocks[t].phis:
                        self.enter(f, t)
                    else:
                        f.block = t
                        f.ip = 0
                    if t == stop and len(frames) == depth:
                        return None
                    break
                elif op == 29:
                    base = regs[ins[2]]
                    off = ins[3]
                    for ri, scale, w in ins[4]:
                        v = regs[ri]
                        if isinstance(v, int):
                            if isinstance(off, int):
                                off += sx(v, w) * scale
                            else:
                                off = T.bvbin('add', off, (sx(v, w) * scale) & T.mask(64), 64)
                        elif isinstance(v, Undef):
                            raise PathEnd('error', 'use of an uninitialised index')
                        else:
                            if isinstance(v, (Ptr, PIte)):
                                v = self.toint(v)
                            if isinstance(v, Term) and v.sort == 'B':
                                v = T.ite(v, 1, 0, w)
                            x = T.sext(v, w, 64) if w < 64 else v
                            x = T.bvbin('mul', x, scale, 64)
                            off = T.bvbin('add', x, off & T.mask(64) if isinstance(off, int) else off, 64)
                            if isinstance(off, int):
                                off = sx(off, 64)
                    if off.__class__ is int and base.__class__ is Ptr and base.off.__class__ is int:
                        regs[ins[1]] = Ptr(base.obj, base.off + off) if off else base
                    else:
                        regs[ins[1]] = self.padd(base, off)
                elif op == 27:
                    t = ins[3]
                    regs[ins[1]] = self.loadtyped(s, regs[ins[2]], t)
                elif op == 28:
                    self.storetyped(s, regs[ins[2]], regs[ins[1]], ins[3])
                elif op == 42:
                    regs[ins[1]] = self.icmp(s, ins[4], regs[ins[2]], regs[ins[3]], ins[5])
                elif op == 2:
                    c = regs[ins[1]]
                    if isinstance(c, int):
                        t = ins[2] if c else ins[3]
                        if f.fn.blocks[t].phis:
                            self.enter(f, t)
                        else:
                            f.block = t
                            f.ip = 0
                        if t == stop and len(frames) == depth:
                            return None
                        break
                    c = self.condterm(s, c)
                    f.ip = ip - 1
                    r = self.branch(s, [(c, ins[2]), (T.bnot(c), ins[3])])
                    if r is None:
                        if f.block == stop and len(frames) == depth:
                            return None
                        break
                    return self.after(r, depth, stop)
                elif op == 1:
                    v = regs[ins[1]] if ins[1] is not None else None
                    for a in f.allocas:
                        s.objs.pop(a, None)
                    frames.pop()
                    if not frames or len(frames) < depth:
                        if frames and f.dest is not None and v is not None:
                            frames[-1].regs[f.dest] = v
                        s.retval = v
                        return None
                    if f.dest is not None and v is not None:
                        frames[-1].regs[f.dest] = v
                    f = frames[-1]
                    regs = f.regs
                    break
                elif 8 <= op <= 25:
                    regs[ins[1]] = self.binop(s, op, regs[ins[2]], regs[ins[3]], ins[4])
                elif op == 46:
                    c = regs[ins[2]]
                    if isinstance(c, int):
                        regs[ins[1]] = regs[ins[3]] if c else regs[ins[4]]
                    elif isinstance(c, tuple):
                        raise Unsupported('vector select')
                    else:
                        c = self.simp(s, self.condterm(s, c, True))
                        a, b = regs[ins[3]], regs[ins[4]]
                        if c is True:
                            regs[ins[1]] = a
                        elif c is False:
                            regs[ins[1]] = b
                        else:
                            t = ins[5]
                            if t.k == 'i' and t.w == 1:
                                if isinstance(a, Undef) or isinstance(b, Undef):
                                    regs[ins[1]] = b if isinstance(a, Undef) else a
                                else:
                                    regs[ins[1]] = T.bool2i(T.bite(c, self.asbool(a), self.asbool(b)))
                            elif t.k == 'i':
                                if isinstance(a, Undef) or isinstance(b, Undef):
                                    regs[ins[1]] = UNDEF
                                else:
                                    regs[ins[1]] = T.ite(c, a, b, t.w)
                            else:
                                regs[ins[1]] = self.mergeval(c, a, b)
                elif op == 31:
                    v = regs[ins[2]]
                    if isinstance(v, int) or isinstance(v, Undef):
                        regs[ins[1]] = v
                    elif isinstance(v, tuple):
                        regs[ins[1]] = tuple(T.zext(x, ins[3].elem.w, ins[4].elem.w) for x in v)
                    else:
                        regs[ins[1]] = T.zext(v, ins[3].w, ins[4].w)
                elif op == 32:
                    v = regs[ins[2]]
                    if isinstance(v, Undef):
                        regs[ins[1]] = v
                    else:
                        regs[ins[1]] = T.sext(v, ins[3].w, ins[4].w)
                elif op == 30:
                    v = regs[ins[2]]
                    if isinstance(v, int):
                        regs[ins[1]] = v & T.mask(ins[4].w)
                    elif isinstance(v, Undef):
                        regs[ins[1]] = v
                    elif isinstance(v, tuple):
                        regs[ins[1]] = tuple(T.trunc(x, ins[3].elem.w, ins[4].elem.w) for x in v)
                    elif v.sort == 'B':
                        regs[ins[1]] = v
                    else:
                        regs[ins[1]] = T.trunc(v, ins[3].w, ins[4].w)
                elif op == 26:
                    cnt = regs[ins[3]]
                    if not isinstance(cnt, int):
                        raise Unsupported('symbolic alloca')
                    o = self.alloc(s, ins[2] * cnt, 'stack')
                    f.allocas.append(o.id)
                    regs[ins[1]] = Ptr(o.id, 0)
                elif op == 39:
                    regs[ins[1]] = self.toint(regs[ins[2]])
                    if ins[4].w < 64:
                        regs[ins[1]] = T.trunc(regs[ins[1]], 64, ins[4].w)
                elif op == 40:
                    regs[ins[1]] = self.toptr(regs[ins[2]])
                elif op == 3:
                    c = regs[ins[1]]
                    if isinstance(c, int):
                        t = ins[2]
                        for cv, ct in ins[3]:
                            if cv == c:
                                t = ct
                                break
                        self.enter(f, t)
                        if t == stop and len(frames) == depth:
                            return None
                        break
                    if isinstance(c, Undef):
                        raise PathEnd('error', 'branch on an uninitialised value')
                    w = ins[4]
                    alts = {}
                    rest = True
                    for cv, ct in ins[3]:
                        e = T.eq(c, cv, w) if not c.sort == 'B' else (c if cv else T.bnot(c))
                        alts[ct] = T.bor(alts.get(ct, False), e)
                        rest = T.band(rest, T.bnot(e))
                    alts[ins[2]] = T.bor(alts.get(ins[2], False), rest)
                    f.ip = ip - 1
                    r = self.branch(s, [(cc, tt) for tt, cc in alts.items()])
                    if r is None:
                        if f.block == stop and len(frames) == depth:
                            return None
                        break
                    return self.after(r, depth, stop)
                elif op == 53:
                    v = regs[ins[2]]
                    for k in ins[3]:
                        v = v[k]
                    regs[ins[1]] = v
                elif op == 54:
                    def put(agg, idx, val):
                        l = list(agg)
                        l[idx[0]] = val if len(idx) == 1 else put(agg[idx[0]], idx[1:], val)
                        return tuple(l)
                    agg = regs[ins[2]]
                    if isinstance(agg, Undef):
                        agg = tuple(UNDEF for _ in range(ins[5].n))
                    regs[ins[1]] = put(agg, ins[4], regs[ins[3]])
                elif op == 41:
                    v = regs[ins[2]]
                    regs[ins[1]] = self.bitcast(v, ins[3], ins[4])
                elif op == 68:
                    regs[ins[1]] = regs[ins[2]]
                elif op == 7:
                    raise PathEnd('error', 'unreachable code reached')
                elif op == 50:
                    regs[ins[1]] = regs[ins[2]][regs[ins[3]]]
                elif op == 51:
                    l = regs[ins[2]]
                    l = list(l) if isinstance(l, tuple) else [UNDEF] * ins[5].n
                    l[regs[ins[4]]] = regs[ins[3]]
                    regs[ins[1]] = tuple(l)
                elif op == 52:
                    a, b = regs[ins[2]], regs[ins[3]]
                    na = len(a) if isinstance(a, tuple) else 0
                    al = (list(a) if isinstance(a, tuple) else []) + (list(b) if isinstance(b, tuple) else [UNDEF] * na)
                    regs[ins[1]] = tuple(al[k] if k >= 0 else UNDEF for k in ins[4])
                else:
                    raise Unsupported('opcode %d%s' % (ins[1] if op == 0x200 else op, self.where(s)))
            else:
                raise Unsupported('block without terminator')
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit')

    def after(self, r, depth, stop):
        """states after a join at (d, join): either they are at our own stop or they go on"""
        states, d, join = r
        if d == depth and join == stop or (join == -1 and d <= depth):
            return _Arrived(states)
        return list(states)

    # ------------------------------------------------------------ helpers for values
    def asbool(self, v):
        if isinstance(v, int):
            return bool(v)
        if isinstance(v, Term) and v.sort != 'B':
            return T.bv2bool(T.extract(v, 0, 0))
        return v

    def condterm(self, s, c, soft=False):
        if isinstance(c, Undef):
            raise PathEnd('error', 'branch on an uninitialised value')
        if isinstance(c, Term):
            if c.sort != 'B':
                c = T.bv2bool(T.extract(c, 0, 0))
            if self.undefs and not soft and isinstance(c, Term):
                for t in T.subterms([c]):
                    if t.op == 'var' and isinstance(t.args[0], str) and t.args[0].startswith('undef!'):
                        raise PathEnd('error', 'branch on an uninitialised value')
            return c
        if isinstance(c, bool):
            return c
        raise Unsupported('condition %r' % (c,))

    def loadtyped(self, s, p, t):
        k = t.k
        if k == 'i':
            if t.w == 1:
                v = self.load(s, p, 1)
                if isinstance(v, int):
                    return v & 1
                if isinstance(v, Undef):
                    return v
                return T.trunc(v, 8, 1) if v.sort != 'B' else v
            if t.w % 8:
                raise Unsupported('load of i%d' % t.w)
            v = self.load(s, p, t.w // 8)
            if isinstance(v, Term) and v.sort == 'B':
                v = T.ite(v, 1, 0, t.w)
            return v
        if k == 'p':
            return self.load(s, p, 8, True)
        if k == 'fp':
            v = self.load(s, p, t.size)
            return v
        if k == 's':
            return tuple(self.loadtyped(s, self.padd(p, o), ft) for o, ft in t.fields)
        if k in ('a', 'v'):
            return tuple(self.loadtyped(s, self.padd(p, i * t.elem.size), t.elem) for i in range(t.n))
        raise Unsupported('load type')

    def storetyped(self, s, p, v, t):
        k = t.k
        if k == 'i':
            if t.w == 1:
                if isinstance(v, Term) and v.sort == 'B':
                    v = T.ite(v, 1, 0, 8)
                self.store(s, p, 1, v)
                return
            if t.w % 8:
                raise Unsupported('store of i%d' % t.w)
            self.store(s, p, t.w // 8, v)
        elif k == 'p':
            self.store(s, p, 8, v)
        elif k == 's':
            for (o, ft), x in zip(t.fields, v):
                self.storetyped(s, self.padd(p, o), x, ft)
        elif k in ('a', 'v'):
            if isinstance(v, Undef):
                return
            for i, x in enumerate(v):
                self.storetyped(s, self.padd(p, i * t.elem.size), x, t.elem)
        elif k == 'fp':
            self.store(s, p, t.size, v)
        else:
            raise Unsupported('store type')

    def bitcast(self, v, st, dt):
        if st.k == dt.k and st.k != 'v':
            return v
        if isinstance(v, tuple) and dt.k == 'i' and st.k == 'v':
            ew = st.elem.w
            return T.concat([(x, ew) for x in reversed(v)])
        if dt.k == 'v' and not isinstance(v, tuple):
            ew = dt.elem.w
            return tuple(T.extract(v, ew * (i + 1) - 1, ew * i) for i in range(dt.n))
        if dt.k == 'v' and isinstance(v, tuple):
            x = T.concat([(y, st.elem.w) for y in reversed(v)])
            ew = dt.elem.w
            return tuple(T.extract(x, ew * (i + 1) - 1, ew * i) for i in range(dt.n))
        raise Unsupported('bitcast')

    _ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}

    def icmp(self, s, pred, a, b, t):
        if a.__class__ is int and b.__class__ is int:
            if pred == 32:
                return int(a == b)
            if pred == 33:
                return int(a != b)
            if pred == 34:
                return int(a > b)
            if pred == 35:
                return int(a >= b)
            if pred == 36:
                return int(a < b)
            if pred == 37:
                return int(a <= b)
            w = t.w
            x, y = sx(a, w), sx(b, w)
            if pred == 38:
                return int(x > y)
            if pred == 39:
                return int(x >= y)
            if pred == 40:
                return int(x < y)
            return int(x <= y)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if t.k == 'p' or isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            if isinstance(a, MpzPart) or isinstance(b, MpzPart):
                raise Unsupported('comparison of limb pointers')
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and isinstance(a.off, int) and isinstance(b.off, int):
                return self.icmp(s, pred, a.off & T.mask(64), b.off & T.mask(64), t) if pred in (32, 33) else \
                    self.icmp(s, pred, (a.off + (1 << 40)), (b.off + (1 << 40)), _T64)
            if pred in (32, 33):
                r = False
                for c1, p in self.palts(self.toptr(a)):
                    for c2, q in self.palts(self.toptr(b)):
                        g = T.band(c1, c2)
                        if g is False or p.obj != q.obj:
                            continue
                        if isinstance(p.off, int) and isinstance(q.off, int):
                            e = p.off == q.off
                        else:
                            e = T.eq(p.off & T.mask(64) if isinstance(p.off, int) else p.off,
                                     q.off & T.mask(64) if isinstance(q.off, int) else q.off, 64)
                        r = T.bor(r, T.band(g, e))
                return T.bool2i(r if pred == 32 else T.bnot(r))
            a = self.toint(a)
            b = self.toint(b)
            if isinstance(a, int) and isinstance(b, int):
                return self.icmp(s, pred, a, b, _T64)
            t = _T64
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsupported('vector compare')
        w = t.w
        if w == 1 and pred in (32, 33):
            r = T.biff(self.asbool(a), self.asbool(b))
            return T.bool2i(r if pred == 32 else T.bnot(r))
        if isinstance(a, Term) and a.sort == 'B':
            a = T.ite(a, 1, 0, w) if w > 1 else a
        if isinstance(b, Term) and b.sort == 'B':
            b = T.ite(b, 1, 0, w) if w > 1 else b
        if isinstance(a, MpzPart) or isinstance(b, MpzPart):
            raise Unsupported('mpz field compare')
        if pred == 32:
            r = T.eq(a, b, w)
        elif pred == 33:
            r = T.bnot(T.eq(a, b, w))
        elif pred == 34:
            r = T.ult(b, a, w)
        elif pred == 35:
            r = T.bnot(T.ult(a, b, w))
        elif pred == 36:
            r = T.ult(a, b, w)
        elif pred == 37:
            r = T.bnot(T.ult(b, a, w))
        elif pred == 38:
            r = T.slt(b, a, w)
        elif pred == 39:
            r = T.bnot(T.slt(a, b, w))
        elif pred == 40:
            r = T.slt(a, b, w)
        else:
            r = T.bnot(T.slt(b, a, w))
        return T.bool2i(r)

    _BIN = {8: 'add', 10: 'sub', 12: 'mul', 14: 'udiv', 15: 'sdiv', 17: 'urem', 18: 'srem', 20: 'shl', 21: 'lshr',
            22: 'ashr', 23: 'and', 24: 'or', 25: 'xor'}

    def binop(self, s, op, a, b, t):
        if a.__class__ is int and b.__class__ is int:
            w = t.w
            if op == 8:
                return (a + b) & T.mask(w)
            if op == 10:
                return (a - b) & T.mask(w)
            if op == 23:
                return a & b
            if op == 24:
                return a | b
            if op == 25:
                return a ^ b
            if op in (14, 15, 17, 18) and b == 0:
                raise PathEnd('error', 'division by zero')
            return T.bvbin(self._BIN[op], a, b, w) if w > 1 else {12: a & b}[op]
        if isinstance(a, tuple) or isinstance(b, tuple):
            e = t.elem
            return tuple(self.binop(s, op, x, y, e) for x, y in zip(a, b))
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        name = self._BIN.get(op)
        if name is None:
            raise Unsupported('binary op %d' % op)
        if isinstance(a, (Ptr, PIte)):
            a = self.toint(a)
        if isinstance(b, (Ptr, PIte)):
            b = self.toint(b)
        w = t.w
        if name in ('udiv', 'sdiv', 'urem', 'srem') and isinstance(b, Term):
            z = T.eq(b, 0, w)
            z = self.simp(s, z)
            if z is True:
                raise PathEnd('error', 'division by zero')
            if z is not False:
                if self.feasible(s, z):
                    self.violation(s, z, 'error: division by zero')
                self.assume(s, T.bnot(z))
        if w > 1:
            if isinstance(a, Term) and a.sort == 'B':
                a = T.ite(a, 1, 0, w)
            if isinstance(b, Term) and b.sort == 'B':
                b = T.ite(b, 1, 0, w)
        return T.bvbin(name, a, b, w)

    # ------------------------------------------------------------ calls
    def model_for(self, name):
        fn = self.mod.funcs.get(name)
        dem = fn.dem if fn is not None else name
        m = self.models.get(name)
        if m is None:
            for rx, g in self.rxmodels:
                if rx.search(dem):
                    m = g
                    break
        return m

    def docall(self, s, ins):
        callee = ins[2]
        f = s.frames[-1]
        regs = f.regs
        if callee.__class__ is str:
            name = callee
        elif isinstance(callee, tuple):
            return None        # inline asm (compiler barriers only)
        else:
            p = regs[callee]
            if not isinstance(p, Ptr) or p.obj not in self.objfunc:
                if isinstance(p, Ptr) and p.obj == 0:
                    raise PathEnd('error', 'call through a null pointer')
                raise Unsupported('indirect call')
            name = self.objfunc[p.obj]
        args = [regs[i] for i in ins[3]]
        if self.alias is not None:
            name = self.alias.get(name, name)
        return self.invoke(s, name, args, ins[1], ins[4])

    def invoke(self, s, name, args, dest, ty):
        m = self._mcache.get(name, 0) if hasattr(self, '_mcache') else self._mk()
        if m == 0:
            m = self.model_for(name)
            self._mcache[name] = m
        f = s.frames[-1]
        if m is not None:
            try:
                v = m(self, s, args)
            except Multi as mu:
                out = []
                alts = []
                for c, fn in mu.alts:
                    c = self.simp(s, c)
                    if c is False:
                        continue
                    alts.append((c, fn))
                if len(alts) > 1:
                    alts = [(c, fn) for c, fn in alts if c is True or self.feasible(s, c)]
                n = len(alts)
                clones = [s if i == n - 1 else self.fork(s) for i in range(n)]
                for i, (c, fn) in enumerate(alts):
                    x = clones[i]
                    try:
                        self.assume(x, c)
                        v = fn(x)
                    except PathEnd as e:
                        self.endpath(x, e)
                        continue
                    except Unsupported as e:
                        self.undecided(x, e)
                        continue
                    x.frames[-1].regs[dest] = v
                    out.append(x)
                return out
            if v is not None:
                f.regs[dest] = v
            if s.frames[-1] is not f:
                return None
            return None
        fn = self.mod.funcs.get(name)
        if fn is None or fn.decl:
            raise Unsupported('external function %s%s' % (fn.dem if fn else name, self.where(s)))
        if not fn.decoded:
            self.mod.get(name)
        if fn.nparams < len(args):
            pass
        self.push(s, fn, args, dest)
        return None

    def _mk(self):
        self._mcache = {}
        return 0


class StopRun(Exception):
    pass


class _Arrived(list):
    pass


class _T:
    k = 'i'
    w = 64


_T64 = _T()


def fn_has(fn, a):
    try:
        getattr(fn, a)
        return True
    except AttributeError:
        return False
