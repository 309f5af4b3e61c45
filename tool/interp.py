"""Abstract interpreter over LLVM IR (loaded by irload) for the domain in absdom.

Interprocedural by inlining abstract states into callees, trace partitioning by small constants,
affine/inequality join and widening at loop heads.  It evaluates no concrete input and calls no solver.
"""
import sys
from absdom import *
import absdom
import irload

sys.setrecursionlimit(10000)

MAXOBJ = 1 << 47


class Restart(Exception):
    pass


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


CFALSE, CTRUE = ('k', False), ('k', True)


def cnot(c):
    if c[0] == 'k':
        return ('k', not c[1])
    if c[0] == 'not':
        return c[1]
    return ('not', c)


def lmod(e, M):
    """the same residue class with coefficients in (-M/2, M/2]"""
    h = M >> 1
    c = e[0]
    if not -h < c <= h:
        c %= M
        if c > h:
            c -= M
        e = (c, e[1])
    for _, k in e[1]:
        if not -h < k <= h:
            t = []
            for s, k in e[1]:
                k %= M
                if k > h:
                    k -= M
                if k:
                    t.append((s, k))
            return (c, tuple(t))
    return e


class Ob:
    __slots__ = ('kind', 'obj', 'fn', 'file', 'line', 'op', 'ok', 'bad', 'msg', 'stack')


class Interp:
    def __init__(self, funcs, gvars, partition=70, bitmode=False, budget=3000000, KH=9):
        self.funcs = funcs
        self.gvars = gvars
        self.obs = {}
        self.K = partition
        self.bitmode = bitmode
        self.steps = 0
        self.budget = budget
        self.fresh = 0
        self.typesum = {}
        self.typesum_changed = False
        self.callstack = []
        self.record = None
        self.heads_store = {}
        self.events_on = False
        self.ext_calls = {}
        self.visited_fns = set()
        self.gstores = {}
        self.retlog = []
        self.alloc_n = 0
        self.models = {}
        self.contentobjs = set()
        self.on_store = None
        self.on_head = None
        self.trace = False
        self.maxdepth = 24
        self.livedims = {}      # merge point -> cells worth partitioning on (kept across restarts)
        self.lost = {}
        self.clock = 1
        self.new_dims = 0
        self.restart_at = None
        self.KH = KH

    # ------------------------------------------------------------- obligations
    def ob(self, kind, obj, ins, ok, msg=''):
        fn = ins.fn.name
        key = (kind, obj, fn, ins.file, ins.line, ins.op)
        o = self.obs.get(key)
        if o is None:
            o = Ob()
            o.kind, o.obj, o.fn, o.file, o.line, o.op = kind, obj, fn, ins.file, ins.line, ins.op
            o.ok = o.bad = 0
            o.msg = ''
            o.stack = ''
            self.obs[key] = o
        if ok:
            o.ok += 1
        else:
            if not o.bad:
                o.msg = msg() if callable(msg) else msg
                o.stack = " <- ".join(reversed([c for c in self.callstack]))
            o.bad += 1

    # ------------------------------------------------------------- value helpers
    def freshsym(self, name, lo=-INF, hi=INF):
        return SY.new(name, lo, hi)

    def fresh_iv(self, w, name='v', lo=None, hi=None):
        if lo is None:
            lo, hi = 0, (1 << w) - 1
        return IV(w, sym(self.freshsym(name, lo, hi)))

    def fresh_ty(self, ty, name='v'):
        if ty.k == 'int':
            return self.fresh_iv(ty.w, name)
        if ty.k == 'ptr':
            return PV('unk', ZERO, None)
        if ty.k == 'struct' and ty.fields is not None:
            return AG([self.fresh_ty(f, name) for f in ty.fields])
        return TOP

    def linof(self, st, bits):
        """Lin (exact, unsigned) of a bit tuple"""
        n = len(bits)
        while n and bits[n - 1] == 0:
            n -= 1
        if n == 0:
            return ZERO
        i = 0
        acc = ZERO
        const = 0
        T = BT.t
        while i < n:
            b = bits[i]
            if b < 2:
                const |= b << i
                i += 1
                continue
            t = T[b]
            j = i + 1
            if t[0] == 'l':
                e, k0 = t[1], t[2]
                while j < n and bits[j] >= 2:
                    u = T[bits[j]]
                    if u[0] == 'l' and u[1] == e and u[2] == k0 + (j - i):
                        j += 1
                    else:
                        break
                L = j - i
                en = st.norm(e)
                if k0 == 0 and st.ilo(en) >= 0 and (st.ihi(en) < (1 << L) or st.prove(lsub(lc((1 << L) - 1), en))):
                    acc = ladd(acc, lmul(en, 1 << i))
                    i = j
                    continue
            else:
                while j < n and bits[j] >= 2 and T[bits[j]][0] != 'l':
                    j += 1
            core = tuple(bits[i:j])
            s = SY.memo.get(('b', core))
            if s is None:
                s = SY.new('bits', 0, (1 << (j - i)) - 1)
                SY.memo[('b', core)] = s
                SY.bitsof[s] = core
            acc = ladd(acc, (0, ((s, 1 << i),)))
            i = j
        return st.norm(laddc(acc, const))

    def U(self, st, v, split=True):
        """Lin equal to the unsigned value"""
        if v.cond is not None:
            r = self.ceval(st, v.cond)
            if r is None:
                raise SplitCond(v.cond)
            return lc(1 if r else 0)
        if v.lin is None:
            return self.linof(st, v.bits)
        e = v.lin
        M = 1 << v.w
        if not e[1]:
            return (e[0] % M, ())
        e = st.norm(e)
        if not e[1]:
            return (e[0] % M, ())
        return self.wrap(st, e, 0, M, split)

    def wrap(self, st, e, base, M, split=True):
        """value congruent to e mod M in [base, base+M)"""
        lo, hi = st.ilo(e), st.ihi(e)
        if lo >= base and hi < base + M:
            return e
        if lo < base:
            l2 = st.lower(e)
            if l2 > lo:
                lo = l2
            if lo < base and st.prove(laddc(e, -base)):
                lo = base
        if hi >= base + M:
            h2 = st.upper(e)
            if h2 < hi:
                hi = h2
            if hi >= base + M and st.prove(lsub(lc(base + M - 1), e)):
                hi = base + M - 1
        if lo >= base and hi < base + M:
            return e
        if lo > -INF and hi < INF:
            k0 = (lo - base) // M
            k1 = (hi - base) // M
            if k0 == k1:
                return laddc(e, -k0 * M)
            if k1 != k0:
                l2, h2 = max(lo, st.lower(e)), min(hi, st.upper(e))
                if st.prove(laddc(e, -(base + k1 * M))):
                    l2 = max(l2, base + k1 * M)
                elif st.prove(lsub(lc(base + k1 * M - 1), e)):
                    h2 = min(h2, base + k1 * M - 1)
                k0, k1 = (l2 - base) // M, (h2 - base) // M
                if k0 >= k1:
                    return laddc(e, -k0 * M)
            if k1 == k0 + 1 and split:
                raise Split(laddc(e, -(base + k1 * M)))
        # drop multiples of M
        r = (e[0] % M, tuple((s, k % M) for s, k in e[1] if k % M))
        if r != e:
            lo, hi = st.ilo(r), st.ihi(r)
            if lo >= base and hi < base + M:
                return r
        # common scale keeps congruence
        g = M
        for _, k in r[1]:
            while k % g:
                g >>= 1
        cst = r[0] % g
        s = SY.memoized(('w', r, base, M), 'wrap', 0, (M // g) - 1 if base == 0 else INF)
        if base != 0:
            s2 = SY.memoized(('ws', r, base, M), 'swrap', base, base + M - 1)
            return st.norm(sym(s2))
        return st.norm((cst, ((s, g),)))

    def S(self, st, v, split=True):
        if v.cond is not None:
            u = self.U(st, v)
            return lneg(u)
        if v.lin is None:
            e = self.linof(st, v.bits)
        else:
            e = st.norm(v.lin)
        M = 1 << v.w
        if not e[1]:
            c = e[0] % M
            return (c - M if c >= M // 2 else c, ())
        return self.wrap(st, e, -(M // 2), M, split)

    def const(self, st, v):
        """constant unsigned value or None"""
        if isinstance(v, IV):
            if v.cond is not None:
                r = self.ceval(st, v.cond)
                return None if r is None else int(r)
            if v.lin is not None:
                e = st.norm(v.lin)
                if not e[1]:
                    return e[0] % (1 << v.w)
                return None
            if v.bits is not None and all(b < 2 for b in v.bits):
                return sum(b << i for i, b in enumerate(v.bits))
            if v.bits is not None:
                e = self.linof(st, v.bits)
                if not e[1]:
                    return e[0]
        return None

    def bits(self, st, v):
        if v.bits is not None:
            if v.lin is not None:
                e = st.norm(v.lin)
                if not e[1]:
                    c = e[0] % (1 << v.w)
                    return tuple((c >> i) & 1 for i in range(v.w))
            return v.bits
        u = self.U(st, v)
        if not u[1]:
            c = u[0]
            return tuple((c >> i) & 1 for i in range(v.w))
        if u[0] == 0 and len(u[1]) == 1:
            s, k = u[1][0]
            if k & (k - 1) == 0 and k > 0:
                sh = k.bit_length() - 1
                core = SY.bitsof.get(s)
                if core is not None and len(core) + sh <= v.w:
                    return (0,) * sh + core + (0,) * (v.w - sh - len(core))
                if sh:
                    hi = st.ihi(u) >> sh
                    out = [0] * sh
                    e = sym(s)
                    for i in range(v.w - sh):
                        out.append(BT.get(('l', e, i)) if (1 << i) <= hi else 0)
                    return tuple(out)
        hi = st.ihi(u)
        return tuple(BT.get(('l', u, i)) if (1 << i) <= hi else 0 for i in range(v.w))

    def has_bits(self, v):
        return v.bits is not None

    # ------------------------------------------------------------- conditions
    def ceval(self, st, c):
        k = c[0]
        if k == 'k':
            return c[1]
        if k == 'ge':
            e = st.norm(c[1])
            if not e[1]:
                return e[0] >= 0
            if st.ilo(e) >= 0:
                return True
            if st.ihi(e) < 0:
                return False
            if st.prove(e):
                return True
            if st.prove(laddc(lneg(e), -1)):
                return False
            return None
        if k == 'eq':
            return st.is_zero(c[1])
        if k == 'not':
            r = self.ceval(st, c[1])
            return None if r is None else (not r)
        if k == 'and':
            r = True
            for x in c[1:]:
                q = self.ceval(st, x)
                if q is False:
                    return False
                if q is None:
                    r = None
            return r
        if k == 'or':
            r = False
            for x in c[1:]:
                q = self.ceval(st, x)
                if q is True:
                    return True
                if q is None:
                    r = None
            return r
        if k == 'xor':
            a, b = self.ceval(st, c[1]), self.ceval(st, c[2])
            if a is None or b is None:
                return None
            return a != b
        raise Unsupported(k)

    def assume(self, st, c, val):
        """returns list of states (may split) in which c == val; st is consumed"""
        k = c[0]
        try:
            if k == 'k':
                return [st] if c[1] == val else []
            if k == 'not':
                return self.assume(st, c[1], not val)
            if k == 'ge':
                if val:
                    st.add_ge(c[1])
                else:
                    st.add_ge(laddc(lneg(c[1]), -1))
                return [st]
            if k == 'eq':
                if val:
                    self.log_eq(st, c[1])
                    st.add_eq(c[1])
                else:
                    st.add_ne(c[1])
                return [st]
            if k == 'xor':
                out = []
                for v in (False, True):
                    for s in self.assume(st.copy(), c[1], v):
                        out += self.assume(s, c[2], v != val)
                return out
            if (k == 'and' and val) or (k == 'or' and not val):
                ss = [st]
                for x in c[1:]:
                    n = []
                    for s in ss:
                        n += self.assume(s, x, val)
                    ss = n
                return ss
            if k in ('and', 'or'):
                # exactly one way to fail first: evaluation order partition
                out = []
                cur = [st]
                for x in c[1:]:
                    nxt = []
                    for s in cur:
                        r = self.ceval(s, x)
                        if r is None or r == val:
                            out += self.assume(s.copy(), x, val)
                        if r is None or r != val:
                            nxt += self.assume(s, x, not val)
                    cur = nxt
                return out
        except Infeasible:
            return []
        raise Unsupported(k)

    def log_eq(self, st, e):
        pass

    def cmp_cond(self, st, pred, a, b):
        if isinstance(a, PV) or isinstance(b, PV):
            return self.pcmp(st, pred, a, b)
        if not isinstance(a, IV) or not isinstance(b, IV):
            return self.unk_cond()
        if pred in ('eq', 'ne'):
            if a.w == 1 and (a.cond is not None or b.cond is not None):
                ca = self.as_cond(st, a)
                cb = self.as_cond(st, b)
                if cb[0] == 'k':
                    c = ca if cb[1] else cnot(ca)
                elif ca[0] == 'k':
                    c = cb if ca[1] else cnot(cb)
                else:
                    c = cnot(('xor', ca, cb))
                return c if pred == 'eq' else cnot(c)
            r = None
            if a.bits is not None and b.bits is not None and a.lin is None and b.lin is None:
                if a.bits == b.bits:
                    r = CTRUE
                else:
                    for x, y in zip(a.bits, b.bits):
                        if x < 2 and y < 2 and x != y:
                            r = CFALSE
                        elif x >= 2 and y >= 2 and (BT.t[x] == ('n', y) or BT.t[y] == ('n', x)):
                            r = CFALSE
            if r is None:
                # modular difference: eq iff a-b == 0 mod 2^w
                if a.lin is not None and b.lin is not None:
                    d = st.norm(lsub(a.lin, b.lin))
                    M = 1 << a.w
                    lo, hi = st.ilo(d), st.ihi(d)
                    if -M < lo and hi < M:
                        r = ('eq', d)
                if r is None:
                    d = lsub(self.U(st, a), self.U(st, b))
                    r = ('eq', d)
                z = st.is_zero(r[1])
                if z is not None:
                    r = ('k', z)
            return r if pred == 'eq' else cnot(r)
        if pred[0] == 'u':
            x, y = self.U(st, a), self.U(st, b)
        else:
            x, y = self.S(st, a), self.S(st, b)
        p = pred[1:]
        if p == 'gt':
            e = laddc(lsub(x, y), -1)
        elif p == 'ge':
            e = lsub(x, y)
        elif p == 'lt':
            e = laddc(lsub(y, x), -1)
        else:
            e = lsub(y, x)
        c = ('ge', st.norm(e))
        r = self.ceval(st, c)
        return c if r is None else ('k', r)

    def unk_cond(self):
        s = self.freshsym('unkcond', 0, 1)
        return ('eq', (-1, ((s, 1),)))

    def as_cond(self, st, v):
        if v.cond is not None:
            return v.cond
        if v.lin is not None:
            e = st.norm(v.lin)
            if not e[1]:
                return ('k', bool(e[0] & 1))
            return ('eq', laddc(self.U(st, v), -1))
        b = v.bits[0]
        if b < 2:
            return ('k', bool(b))
        return ('eq', laddc(self.linof(st, v.bits), -1))

    def pcmp(self, st, pred, a, b):
        if isinstance(a, IV):
            a = self.inttoptr(st, a)
        if isinstance(b, IV):
            b = self.inttoptr(st, b)
        if not isinstance(a, PV) or not isinstance(b, PV):
            return self.unk_cond()
        if a.obj == b.obj and a.obj != 'unk':
            x, y = a.off, b.off
            if pred in ('eq', 'ne'):
                c = ('eq', st.norm(lsub(x, y)))
                z = st.is_zero(c[1])
                if z is not None:
                    c = ('k', z)
                return c if pred == 'eq' else cnot(c)
            p = pred[1:]
            e = {'gt': lambda: laddc(lsub(x, y), -1), 'ge': lambda: lsub(x, y),
                 'lt': lambda: laddc(lsub(y, x), -1), 'le': lambda: lsub(y, x)}[p]()
            c = ('ge', st.norm(e))
            r = self.ceval(st, c)
            return c if r is None else ('k', r)
        if pred in ('eq', 'ne') and 'unk' not in (a.obj, b.obj):
            if 'null' in (a.obj, b.obj):
                o = b if a.obj == 'null' else a
                n = a if a.obj == 'null' else b
                if n.off == ZERO:
                    r = CFALSE
                    return r if pred == 'eq' else CTRUE
            else:
                # distinct objects; one-past-the-end aliasing ignored
                return CFALSE if pred == 'eq' else CTRUE
        return self.unk_cond()

    # ------------------------------------------------------------- arithmetic
    def binop(self, st, op, a, b, w, ins):
        if a is TOP or b is TOP or not isinstance(a, IV) or not isinstance(b, IV):
            return self.fresh_iv(w)
        if w == 1 and op in ('and', 'or', 'xor'):
            ca, cb = self.as_cond(st, a), self.as_cond(st, b)
            if op == 'xor':
                if cb[0] == 'k':
                    return IV(1, None, None, cnot(ca) if cb[1] else ca)
                if ca[0] == 'k':
                    return IV(1, None, None, cnot(cb) if ca[1] else cb)
                return IV(1, None, None, ('xor', ca, cb))
            for x, y in ((ca, cb), (cb, ca)):
                if x[0] == 'k':
                    if op == 'and':
                        return IV(1, None, None, y if x[1] else CFALSE)
                    return IV(1, None, None, CTRUE if x[1] else y)
            return IV(1, None, None, (op, ca, cb))
        M = 1 << w
        if a.cond is not None:
            a = IV(a.w, self.U(st, a))
        if b.cond is not None:
            b = IV(b.w, self.U(st, b))
        if not self.bitmode and w >= 16 and (self.noisy(a) or self.noisy(b)):
            hi = M - 1
            if op in ('lshr', 'and', 'urem', 'udiv'):
                kb = self.const(st, b)
                ka = self.const(st, a) if kb is None and op == 'and' else None
                if op == 'lshr' and kb is not None and kb < w:
                    hi >>= kb
                elif op == 'and' and (kb is not None or ka is not None):
                    hi = kb if kb is not None else ka
                elif op == 'urem' and kb:
                    hi = kb - 1
                elif op == 'udiv' and kb:
                    hi //= kb
                else:
                    hi = None
            elif op not in ('add', 'sub', 'xor', 'shl', 'mul', 'or') or (op == 'shl' and self.const(st, b) is None):
                hi = None
            if hi is not None:
                if op in ('lshr', 'shl'):
                    k = self.const(st, b)
                    self.ob('shift', '', ins, k < w, "shift amount %d >= width %d" % (k, w))
                return self.noise(w, hi)
        if op in ('add', 'sub'):
            x = a.lin if a.lin is not None else self.linof(st, a.bits)
            y = b.lin if b.lin is not None else self.linof(st, b.bits)
            r = lmod(st.norm(ladd(x, y) if op == 'add' else lsub(x, y)), M)
            if not r[1]:
                return konst(w, r[0])
            return IV(w, r)
        if op == 'mul':
            ka, kb = self.const(st, a), self.const(st, b)
            if ka is not None and kb is not None:
                return konst(w, ka * kb)
            if ka is not None:
                a, b, ka, kb = b, a, kb, ka
            if kb is not None:
                if kb == 0:
                    return konst(w, 0)
                if kb == 1:
                    return a
                x = a.lin if a.lin is not None else self.linof(st, a.bits)
                k = kb - M if kb > M // 2 else kb
                if abs(k) > (1 << 20) and w <= 64 and not self.bitmode:
                    return self.noise(w)
                if abs(k) > (1 << 20) and w <= 64:
                    s = SY.memoized(('mulc', w, st.norm(x), k), 'mul', 0, M - 1)
                    return IV(w, st.norm(sym(s)))
                return IV(w, lmod(st.norm(lmul(x, k)), M))
            x, y = self.U(st, a), self.U(st, b)
            for p, q in ((x, y), (y, x)):
                lo, hi = st.ilo(p), st.ihi(p)
                if hi - lo <= 1:
                    raise Split(laddc(p, -hi))
            hi = st.ihi(x) * st.ihi(y)
            if hi >= M:
                hi = M - 1
            key = ('mul', w) + tuple(sorted((x, y)))
            s = SY.memoized(key, 'mul', 0, M - 1)
            st.set_iv(s, 0, hi) if s not in st.eq else None
            return IV(w, st.norm(sym(s)))
        if op in ('and', 'or', 'xor'):
            return self.bitop(st, op, a, b, w)
        if op in ('shl', 'lshr', 'ashr'):
            k = self.const(st, b)
            if k is None:
                e = self.U(st, b)
                lo, hi = st.lower(e), st.upper(e)
                self.ob('shift', '', ins, hi < w or st.prove(lsub(lc(w - 1), e)),
                        lambda: "shift amount %s not proved < %d" % (show(e), w))
                hi = min(hi, w - 1)
                if hi - lo <= 8 or (self.bitmode and hi - lo <= 64):
                    mid = (max(lo, 0) + hi + 1) // 2
                    if mid > lo:
                        raise Split(laddc(e, -mid))
                if op == 'lshr':
                    x = self.U(st, a)
                    h = st.ihi(x)
                    key = ('lshr', x, e)
                    s = SY.memoized(key, 'lshr', 0, M - 1)
                    h = h if h < INF else M - 1
                    if s not in st.eq:
                        st.set_iv(s, 0, h >> max(0, int(lo) if lo > -INF else 0))
                    return IV(w, st.norm(sym(s)))
                return self.fresh_iv(w)
            self.ob('shift', '', ins, k < w, "shift amount %d >= width %d" % (k, w))
            if k >= w:
                return self.fresh_iv(w)
            if k == 0:
                return a
            if op == 'shl':
                bb = None
                if a.bits is not None or (self.bitmode and w >= 8):
                    ab = self.bits(st, a)
                    bb = ((0,) * k + ab)[:w]
                    if a.lin is None:
                        return IV(w, None, bb)
                ln = st.norm(lmul(a.lin, 1 << k))
                ln = (ln[0] % M, tuple((s, c % M) for s, c in ln[1] if c % M))
                if not ln[1]:
                    return konst(w, ln[0])
                return IV(w, ln, bb)
            if op == 'lshr':
                bb = None
                if a.bits is not None or (self.bitmode and w >= 8):
                    ab = self.bits(st, a)
                    bb = (ab + (0,) * k)[k:k + w]
                    if a.lin is None or a.bits is not None:
                        if a.lin is None:
                            return IV(w, None, bb)
                u = self.U(st, a)
                q, r = st.divmod2(u, 1 << k)
                if not q[1]:
                    return konst(w, q[0])
                return IV(w, q, bb)
            # ashr
            if a.bits is not None and a.lin is None:
                top = a.bits[-1]
                return IV(w, None, a.bits[k:] + (top,) * k)
            s = self.S(st, a)
            q, r = st.divmod2(s, 1 << k)
            if not q[1]:
                return konst(w, q[0])
            return IV(w, q)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            signed = op[0] == 's'
            x = self.S(st, a) if signed else self.U(st, a)
            y = self.S(st, b) if signed else self.U(st, b)
            if y[1]:
                self.ob('div0', '', ins, st.prove(laddc(y, -1)) or st.prove(laddc(lneg(y), -1)), "divisor may be zero")
                lo, hi = st.ilo(y), st.ihi(y)
                if hi - lo <= 8:
                    raise Split(laddc(y, -((lo + hi + 1) // 2)))
                return self.fresh_iv(w)
            d = y[0]
            self.ob('div0', '', ins, d != 0, "division by zero")
            if d == 0:
                raise Infeasible()
            if signed:
                if d < 0:
                    return self.fresh_iv(w)
                if st.prove(x):
                    pass
                elif st.prove(laddc(lneg(x), -1)):
                    q, r = st.divmod2(lneg(x), d)
                    q, r = lneg(q), lneg(r)
                    return IV(w, st.norm(q if op == 'sdiv' else r))
                else:
                    # exact division keeps the sign-independent quotient
                    if op == 'sdiv' and all(k % d == 0 for _, k in x[1]) and x[0] % d == 0:
                        return IV(w, (x[0] // d, tuple((s, k // d) for s, k in x[1])))
                    raise Split(x)
            q, r = st.divmod2(x, d)
            v = st.norm(q if op.endswith('div') else r)
            if not v[1]:
                return konst(w, v[0])
            return IV(w, v)
        raise Unsupported(op)

    def noise(self, w, hi=None):
        s = SY.new('noise', 0, (1 << w) - 1 if hi is None else hi)
        SY.noise.add(s)
        return IV(w, sym(s))

    def noisy(self, v):
        if v.lin is not None and v.bits is None:
            N = SY.noise
            for s, _ in v.lin[1]:
                if s in N:
                    return True
        return False

    def bitop(self, st, op, a, b, w):
        M = 1 << w
        ka, kb = self.const(st, a), self.const(st, b)
        if ka is not None and kb is not None:
            return konst(w, ka & kb if op == 'and' else ka | kb if op == 'or' else ka ^ kb)
        if ka is not None:
            a, b, ka, kb = b, a, kb, ka
        if kb is not None:
            if op == 'and':
                if kb == 0:
                    return konst(w, 0)
                if kb == M - 1:
                    return a
                if a.lin is not None and a.bits is None:
                    if kb & (kb + 1) == 0:      # low mask
                        q, r = st.divmod2(st.norm(a.lin), kb + 1)
                        if not r[1]:
                            return konst(w, r[0])
                        return IV(w, r)
                    nk = M - kb
                    if nk & (nk - 1) == 0:      # high mask
                        u = self.U(st, a)
                        q, r = st.divmod2(u, nk)
                        return IV(w, st.norm(lmul(q, nk)))
                    # contiguous mask
                    low = (kb & -kb)
                    t = kb + low
                    if t & (t - 1) == 0:
                        u = self.U(st, a)
                        q1, r1 = st.divmod2(u, t)
                        q2, r2 = st.divmod2(r1, low)
                        return IV(w, st.norm(lmul(q2, low)))
            elif op == 'or' and kb == 0:
                return a
            elif op == 'xor':
                if kb == 0:
                    return a
                if kb == M - 1:
                    nb = None
                    if a.bits is not None:
                        nb = tuple((1 - x) if x < 2 else (BT.t[x][1] if BT.t[x][0] == 'n' else BT.get(('n', x)))
                                   for x in a.bits)
                        if a.lin is None:
                            return IV(w, None, nb)
                    return IV(w, st.norm(lsub(lc(M - 1), a.lin)), nb)
        if op == 'xor' and kb is None and not self.bitmode and w >= 16:
            return self.noise(w)
        # relational fast path for and/or on plain ints
        if a.bits is None and b.bits is None and kb is None and not self.bitmode:
            x, y = self.U(st, a), self.U(st, b)
            hx, hy = st.ihi(x), st.ihi(y)
            if op == 'and':
                hi = min(hx, hy)
            else:
                hi = (1 << max(int(hx).bit_length(), int(hy).bit_length())) - 1 if max(hx, hy) < INF else M - 1
            if op == 'or':
                for p, q in ((x, y), (y, x)):
                    hq = st.ihi(q)
                    if hq < INF:
                        m = 1 << int(hq).bit_length()
                        if all(k % m == 0 for _, k in p[1]) and p[0] % m == 0:
                            return IV(w, ladd(p, q))
            key = (op, w) + tuple(sorted((x, y)))
            s = SY.memoized(key, op, 0, M - 1)
            if s not in st.eq:
                st.set_iv(s, 0, min(hi, M - 1))
            return IV(w, st.norm(sym(s)))
        x, y = self.bits(st, a), self.bits(st, b)
        out = []
        T = BT.t
        for i in range(w):
            p, q = x[i], y[i]
            if op == 'and':
                if p == 0 or q == 0:
                    r = 0
                elif p == 1:
                    r = q
                elif q == 1 or p == q:
                    r = p
                else:
                    r = BT.get(('and', min(p, q), max(p, q)))
            elif op == 'or':
                if p == 1 or q == 1:
                    r = 1
                elif p == 0:
                    r = q
                elif q == 0 or p == q:
                    r = p
                else:
                    r = BT.get(('or', min(p, q), max(p, q)))
            else:
                if p == q:
                    r = 0
                elif p == 0:
                    r = q
                elif q == 0:
                    r = p
                elif p == 1 or q == 1:
                    o = q if p == 1 else p
                    if o < 2:
                        r = 1 - o
                    else:
                        r = T[o][1] if T[o][0] == 'n' else BT.get(('n', o))
                else:
                    r = BT.get(('x', min(p, q), max(p, q)))
            out.append(r)
        if all(z < 2 for z in out):
            return konst(w, sum(z << i for i, z in enumerate(out)))
        return IV(w, None, tuple(out))

    def cast(self, st, op, v, src, dst, ins):
        if op == 'bitcast' or op == 'addrspacecast' or op == 'freeze':
            return v
        if op == 'ptrtoint':
            if isinstance(v, PV):
                return self.ptrtoint(st, v, dst.w)
            return self.fresh_iv(dst.w)
        if op == 'inttoptr':
            return self.inttoptr(st, v) if isinstance(v, IV) else PV('unk')
        if not isinstance(v, IV) or dst.k != 'int':
            return self.fresh_ty(dst)
        w = dst.w
        if op == 'trunc':
            if w == 1:
                if v.cond is not None:
                    return v
            if v.cond is not None:
                v = IV(v.w, self.U(st, v))
            if v.lin is not None:
                ln = st.norm(v.lin)
                if not ln[1]:
                    return konst(w, ln[0])
                return IV(w, ln, v.bits[:w] if v.bits is not None else None)
            return IV(w, None, v.bits[:w])
        if op == 'zext':
            if v.cond is not None:
                return IV(w, self.U(st, v))
            if v.lin is None:
                return IV(w, None, v.bits + (0,) * (w - v.w))
            return IV(w, self.U(st, v), (v.bits + (0,) * (w - v.w)) if v.bits is not None else None)
        if op == 'sext':
            if v.cond is not None:
                return IV(w, lneg(self.U(st, v)))
            if v.lin is None:
                return IV(w, None, v.bits + (v.bits[-1],) * (w - v.w))
            return IV(w, self.S(st, v))
        return self.fresh_iv(w)

    def addr_sym(self, obj):
        return SY.memoized(('addr', obj), 'ADDR_%s' % (obj if isinstance(obj, str) else obj[1]), 4096, MAXOBJ)

    def ptrtoint(self, st, v, w):
        if v.obj == 'null':
            return IV(w, v.off)
        if v.obj == 'unk':
            return self.fresh_iv(w)
        s = self.addr_sym(v.obj)
        SY.memo[('addrof', s)] = v.obj
        return IV(w, st.norm(ladd(sym(s), v.off)))

    def inttoptr(self, st, v):
        if v.lin is None:
            e = self.linof(st, v.bits)
        else:
            e = v.lin
        for s, k in e[1]:
            o = SY.memo.get(('addrof', s))
            if o is not None and k == 1:
                return PV(o, st.norm(lsub(e, sym(s))))
        e = st.norm(e)
        if not e[1]:
            return PV('null', e)
        return PV('unk')

    # ------------------------------------------------------------- operands
    def opv(self, st, o, fr=None):
        k = o.k
        if k == 'inst':
            return st.frames[-1].get(o.v.id, None) if True else None
        if k == 'cint':
            return konst(o.ty.w, o.v)
        if k == 'arg':
            return st.frames[-1][('a', o.v)]
        if k == 'null':
            return NULLP
        if k == 'gvar':
            return PV(('g', o.v))
        if k == 'func':
            return PV(('fn', o.v))
        if k == 'undef':
            if o.ty.k == 'int':
                return IV(o.ty.w, sym(self.freshsym('undef', 0, (1 << o.ty.w) - 1)))
            return self.fresh_ty(o.ty, 'undef')
        if k == 'zero':
            if o.ty.k == 'int':
                return konst(o.ty.w, 0)
            if o.ty.k == 'ptr':
                return NULLP
            if o.ty.k == 'struct':
                return AG([self.opv(st, irload.Val('zero', None, f)) for f in o.ty.fields])
            return TOP
        if k == 'cexpr':
            ops, x = o.x
            if o.v == 'getelementptr':
                base = self.opv(st, ops[0])
                return self.gep(st, base, x, [self.opv(st, q) for q in ops[1:]])
            if o.v in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext'):
                return self.cast(st, o.v, self.opv(st, ops[0]), ops[0].ty, o.ty, None)
            if o.v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
                return self.binop(st, o.v, self.opv(st, ops[0]), self.opv(st, ops[1]), o.ty.w, None)
            return self.fresh_ty(o.ty)
        if k == 'agg':
            if o.ty.k == 'struct':
                return AG([self.opv(st, q) for q in o.v])
            return TOP
        return TOP

    def gep(self, st, base, sty, idx):
        if not isinstance(base, PV):
            return PV('unk')
        off = base.off
        ty = sty
        tag = base.tag
        first = True
        for iv in idx:
            if not isinstance(iv, IV):
                return PV('unk')
            if first:
                n = self.S(st, iv)
                off = ladd(off, lmul(n, ty.size))
                first = False
                if n != ZERO:
                    tag = None
                if ty.k == 'struct' and tag is None:
                    tag = (ty.name,)
                continue
            if ty.k == 'struct':
                c = self.const(st, iv)
                off = laddc(off, ty.offs[c])
                ft = ty.fields[c]
                tag = (ty.name, c)
                ty = ft
            elif ty.k in ('array', 'vec'):
                n = self.S(st, iv)
                ty = ty.elem
                off = ladd(off, lmul(n, ty.size))
                tag = (tag, '[]')
            else:
                return PV('unk')
        return PV(base.obj, st.norm(off), tag)

    # ------------------------------------------------------------- memory
    def gobj(self, name):
        return self.gvars.get(name)

    def gcells(self, gv):
        """flatten initialiser to {off: (size, Val)}"""
        if gv._bytes is None:
            cells = {}

            def walk(v, ty, off):
                if ty.k == 'struct':
                    if v.k == 'agg':
                        for f, t, o in zip(v.v, ty.fields, ty.offs):
                            walk(f, t, off + o)
                    else:
                        for t, o in zip(ty.fields, ty.offs):
                            walk(irload.Val('zero' if v.k == 'zero' else 'undef', None, t), t, off + o)
                elif ty.k in ('array', 'vec'):
                    if v.k == 'agg':
                        for i, f in enumerate(v.v):
                            walk(f, ty.elem, off + i * ty.elem.size)
                    elif ty.n * ty.elem.size <= 65536:
                        for i in range(ty.n):
                            walk(irload.Val('zero' if v.k == 'zero' else 'undef', None, ty.elem), ty.elem, off + i * ty.elem.size)
                else:
                    cells[off] = (ty.size, v)
            if gv.init is not None:
                walk(gv.init, gv.ty, 0)
            gv._bytes = cells
        return gv._bytes

    def inbounds(self, st, off, n, size):
        """n, size: Lin"""
        if size is None:
            return False
        return st.prove(off) and st.prove(lsub(lsub(size, off), n))

    def deref(self, st, p, n, ins, what):
        """common checks. returns object or None (unknown, trusted) ; may raise Infeasible"""
        if not isinstance(p, PV) or p.obj == 'unk':
            return None
        if p.obj == 'null':
            self.ob('null', '', ins, False, "%s through a null pointer" % what)
            raise Infeasible()
        if isinstance(p.obj, tuple) and p.obj[0] == 'fn':
            return None
        off = st.norm(p.off)
        if isinstance(p.obj, tuple) and p.obj[0] == 'g':
            gv = self.gobj(p.obj[1])
            if gv is None or gv.decl:
                return None
            ok = self.inbounds(st, off, n, lc(gv.size))
            self.ob('bounds', 'global:' + gv.name, ins, ok,
                    lambda: "%s of %s bytes at offset %s of global %s (size %d)" % (what, show(n), show(off), gv.name, gv.size))
            if not ok:
                self.clamp(st, off, n, lc(gv.size))
            return gv
        o = st.mem.get(p.obj)
        if o is None:
            return None
        if o.state == 'freed':
            self.ob('uaf', o.kind, ins, False, "%s of freed object" % what)
            raise Infeasible()
        ok = self.inbounds(st, off, n, o.size)
        self.ob('bounds-' + what, o.kind, ins, ok,
                lambda: "%s of %s bytes at offset %s of %s (size %s)" % (what, show(n), show(off), o.kind, show(o.size) if o.size else '?'))
        if not ok:
            self.clamp(st, off, n, o.size)
        return o

    def clamp(self, st, off, n, size):
        """after reporting, continue with the states where the access was fine"""
        st.add_ge(off)
        if size is not None:
            st.add_ge(lsub(lsub(size, off), n))

    def load(self, st, p, ty, ins):
        n = ty.store
        o = self.deref(st, p, lc(n), ins, 'read')
        if o is None:
            if isinstance(p, PV) and p.obj == 'unk' and ty.k == 'int' and p.tag is not None:
                r = self.typesum.get((p.tag, ty.w))
                if r is not None:
                    return IV(ty.w, sym(self.freshsym('heap', r[0], r[1])))
            return self.fresh_ty(ty, 'ld')
        off = st.norm(p.off)
        if isinstance(o, irload.GVar):
            if not o.const and not getattr(o, 'frozen', False):
                g = self.gstores.get(o.name)
                if g or not o.linkage in (8, 9):   # internal/private
                    return self.fresh_ty(ty, 'glob')
            cells = self.gcells(o)
            if not off[1]:
                c = cells.get(off[0])
                if c is not None and c[0] == ty.size:
                    return self.opv(st, c[1])
                return self.fresh_ty(ty, 'glob')
            lo, hi = st.lower(off), st.upper(off)
            if lo > -INF and hi < INF and ty.k == 'int':
                g = 0
                for _, k in off[1]:
                    g = absdom.gcd(g, k)
                cnt = (hi - lo) // max(g, 1) + 1
                if cnt <= 40:
                    mid = lo + ((cnt) // 2) * max(g, 1)
                    if mid > lo:
                        raise Split(laddc(off, -mid))
                mn, mx = None, None
                for q, (sz, v) in cells.items():
                    if sz == ty.size and v.k == 'cint' and lo <= q <= hi:
                        mn = v.v if mn is None else min(mn, v.v)
                        mx = v.v if mx is None else max(mx, v.v)
                if mn is not None:
                    s = SY.memoized(('tab', o.name, off, ty.w), 'tab', mn, mx)
                    return IV(ty.w, st.norm(sym(s)))
            return self.fresh_ty(ty, 'glob')
        return self.mread(st, p.obj, o, off, ty, n, ins)

    def mread(self, st, oid, o, off, ty, n, ins):
        if o.kind == 'in' and ty.k == 'int':
            bits = []
            for j in range(n):
                e = laddc(off, j)
                for k in range(8):
                    bits.append(BT.get(('m', 'in', e, k)))
            return IV(ty.w, None, tuple(bits[:ty.w]))
        if o.kind == 'out':
            self.out_read(st, o, off, lc(n), ins)
            if ty.k == 'int':
                bits = []
                base = off[1]
                m = (o.sym or {}).get(base)
                for j in range(n):
                    c = off[0] + j
                    if m is not None and c in m:
                        bits.extend(m[c])
                    elif o.sym is not None and not o.sym and self.bitmode:
                        e = laddc(off, j)
                        bits.extend(BT.get(('m', 'out', e, k)) for k in range(8))
                    elif m is not None and o.ro == 'pristine' and len(o.sym) == 1:
                        e = laddc(off, j)
                        bits.extend(BT.get(('m', 'out', e, k)) for k in range(8))
                    else:
                        self.fresh += 1
                        bits.extend(BT.get(('t', self.fresh, k)) for k in range(8))
                return IV(ty.w, None, tuple(bits[:ty.w]))
            return self.fresh_ty(ty)
        if not off[1]:
            self.touch(st, oid, o, off[0], off[0] + n)
            v = self.cread(st, o, off[0], ty, n)
            if v is not None:
                return v
            return self.fresh_ty(ty, 'ld')
        self.touch(st, oid, o, st.lower(off), st.upper(off) + n)
        # symbolic offset in a cell object: summary
        if ty.k == 'int':
            lo, hi = st.lower(off), st.upper(off)
            if lo > -INF and hi < INF:
                s = self.region_summary(st, o, lo, hi + n, ty.w)
                if s is not None:
                    return IV(ty.w, sym(self.freshsym('arr', s[0], s[1])))
        return self.fresh_ty(ty, 'arr')

    def touch(self, st, oid, o, lo, hi):
        """a read of [lo,hi): the cells there were live at every merge point passed since their last write"""
        ps = st.passed
        if not ps:
            return
        cs = o.cells
        if hi - lo <= 16:
            qs = [q for q in range(lo - 7, hi) if q in cs and q + cs[q][0] > lo]
        else:
            qs = [q for q, c in cs.items() if q < hi and q + c[0] > lo]
        for q in qs:
            t = o.wt.get(q, 0)
            k = (oid, q)
            for h, tp in ps.items():
                if tp > t:
                    d = self.livedims.get(h)
                    if d is None:
                        d = self.livedims[h] = set()
                    if k not in d:
                        d.add(k)
                        if k in self.lost.get(h, ()):
                            self.new_dims += 1

    def cread(self, st, o, off, ty, n):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            if ty.k == 'int':
                if isinstance(v, IV):
                    if v.w == ty.w:
                        return v
                    if v.w > ty.w:
                        return self.cast(st, 'trunc', v, None, ty, None)
                    return self.cast(st, 'zext', v, None, ty, None)
                if isinstance(v, PV) and n == 8:
                    return self.ptrtoint(st, v, 64)
                return None
            if ty.k == 'ptr':
                if isinstance(v, PV):
                    return v
                if isinstance(v, IV):
                    return self.inttoptr(st, v)
                return None
            return v if not isinstance(v, (IV, PV)) else None
        if ty.k != 'int':
            if ty.k == 'ptr':
                for lo, hi, es, s in o.fills:
                    if lo <= off and off + n <= hi and s == ('zero',):
                        if not any(q < off + n and q + c2[0] > off for q, c2 in o.cells.items()):
                            return NULLP
            return None
        # assemble from bytes
        over = [(q, c2) for q, c2 in o.cells.items() if q < off + n and q + c2[0] > off]
        if not over:
            for lo, hi, es, s in o.fills:
                if lo <= off and off + n <= hi:
                    if s == ('zero',):
                        return konst(ty.w, 0)
                    if es == n:
                        return IV(ty.w, sym(self.freshsym('arr', s[0], s[1])))
            return None
        bits = [None] * (8 * n)
        for q, (sz, v) in over:
            if not isinstance(v, IV):
                return None
            vb = self.bits(st, v)
            vb = vb + (0,) * (8 * sz - len(vb))
            for j in range(sz):
                if off <= q + j < off + n:
                    bits[8 * (q + j - off):8 * (q + j - off) + 8] = vb[8 * j:8 * j + 8]
        for i, b in enumerate(bits):
            if b is None:
                z = False
                for lo, hi, es, s in o.fills:
                    if s == ('zero',) and lo <= off + i // 8 < hi:
                        z = True
                if not z:
                    return None
                bits[i] = 0
        return IV(ty.w, None, tuple(bits[:ty.w]))

    def region_summary(self, st, o, lo, hi, w):
        """hull (signed or unsigned, whichever tighter) of w-bit elements stored in [lo,hi)"""
        vals = []
        n = w // 8
        covered = False
        for q, (sz, v) in o.cells.items():
            if q < hi and q + sz > lo:
                if sz != n or not isinstance(v, IV):
                    return None
                vals.append(self.hull_of(st, v))
                covered = True
        for a, b, es, s in o.fills:
            if a < hi and b > lo:
                covered = True
                if s == ('zero',):
                    vals.append((0, 0))
                elif es == n:
                    vals.append(s)
                else:
                    return None
        if not covered:
            return None
        return self.hull(vals, w)

    def hull_of(self, st, v):
        """(lo,hi) interval of a representative of v modulo 2^w"""
        M = 1 << v.w
        if v.cond is not None:
            return (0, 1)
        if v.lin is None:
            e = self.linof(st, v.bits)
        else:
            e = st.norm(v.lin)
        lo, hi = st.lower(e), st.upper(e)
        if lo == -INF or hi == INF or hi - lo >= M:
            return (0, M - 1)
        if not e[1]:
            c = e[0] % M
            return (c, c) if c < M // 2 else (c - M, c - M)
        if lo >= M // 2:
            lo, hi = lo - M, hi - M
        return (lo, hi)

    def hull(self, vals, w):
        lo = min(v[0] for v in vals)
        hi = max(v[1] for v in vals)
        if hi - lo >= (1 << w):
            return (0, (1 << w) - 1)
        return (lo, hi)

    def setobj(self, st, oid):
        o = st.mem[oid].copy()
        st.mem[oid] = o
        return o

    def kill_cells(self, st, o, lo, hi):
        for q in [q for q, c in o.cells.items() if q < hi and q + c[0] > lo]:
            sz, v = o.cells.pop(q)
            # keep the untouched bytes of integer cells
            if isinstance(v, IV) and (q < lo or q + sz > hi):
                vb = None
                try:
                    vb = self.bits(st, v)
                except (Split, SplitCond):
                    vb = None
                if vb is not None:
                    vb = vb + (0,) * (8 * sz - len(vb))
                    for j in range(sz):
                        if not (lo <= q + j < hi):
                            o.cells[q + j] = (1, IV(8, None, vb[8 * j:8 * j + 8]))

    def store(self, st, p, v, ty, ins):
        n = ty.store
        o = self.deref(st, p, lc(n), ins, 'write')
        if o is None:
            if isinstance(p, PV) and p.obj == 'unk' and p.tag is not None and ty.k == 'int' and isinstance(v, IV):
                h = self.hull_of(st, v)
                key = (p.tag, ty.w)
                old = self.typesum.get(key)
                new = h if old is None else self.hull([old, h], ty.w)
                if new != old:
                    self.typesum[key] = new
                    self.typesum_changed = True
            return
        if isinstance(o, irload.GVar):
            self.gstores.setdefault(o.name, []).append(ins)
            self.ob('gwrite', 'global:' + o.name, ins, False, "store to global %s" % o.name)
            return
        off = st.norm(p.off)
        self.mwrite(st, p.obj, off, v, ty, n, ins)

    def mwrite(self, st, oid, off, v, ty, n, ins):
        o = st.mem[oid]
        if o.kind == 'in':
            self.ob('in-write', 'in', ins, False, "store into the input buffer")
            return
        if o.kind == 'out':
            self.out_write(st, oid, o, off, lc(n), v, ins)
            return
        o = self.setobj(st, oid)
        if not off[1]:
            c = off[0]
            self.kill_cells(st, o, c, c + n)
            if isinstance(v, AG):
                for f, t, q in zip(v.f, ty.fields, ty.offs):
                    o.cells[c + q] = (t.store, f)
                    o.wt[c + q] = self.clock
            else:
                o.cells[c] = (n, v)
                o.wt[c] = self.clock
            return
        lo, hi = st.lower(off), st.upper(off)
        if lo == -INF or hi == INF:
            o.cells = {}
            o.fills = ()
            return
        self.smash(st, o, lo, hi + n, n, v)

    def smash(self, st, o, lo, hi, n, v):
        h = self.hull_of(st, v) if isinstance(v, IV) else None
        vals = []
        nf = []
        bad = h is None
        for q in [q for q, c in o.cells.items() if q < hi and q + c[0] > lo]:
            sz, cv = o.cells[q]
            if sz == n and isinstance(cv, IV) and q >= lo and q + sz <= hi:
                vals.append(self.hull_of(st, cv))
                del o.cells[q]
            else:
                bad = True
                del o.cells[q]
        for f in o.fills:
            a, b, es, s = f
            if a < hi and b > lo:
                if s == ('zero',):
                    vals.append((0, 0))
                elif es == n:
                    vals.append(s)
                else:
                    bad = True
                if a < lo:
                    nf.append((a, lo, es, s))
                if b > hi:
                    nf.append((hi, b, es, s))
            else:
                nf.append(f)
        if not bad:
            vals.append(h)
            nf.append((lo, hi, n, self.hull(vals, 8 * n)))
        o.fills = tuple(sorted(nf, key=lambda f: (f[0], f[1])))

    # content/ghost handling for the output buffer
    def hw(self, st):
        return st.norm(st.mem['G'].cells[0][1].lin)

    def set_hw(self, st, e):
        o = self.setobj(st, 'G')
        o.cells[0] = (8, IV(64, st.norm(e)))

    def out_read(self, st, o, off, n, ins):
        if 'G' in st.mem:
            hw = self.hw(st)
            ok = st.prove(lsub(lsub(hw, off), n))
            self.ob('out-uninit', 'out', ins, ok,
                    lambda: "reads output bytes [%s, +%s) beyond the produced prefix %s" % (show(off), show(n), show(hw)))

    def out_write(self, st, oid, o, off, n, v, ins):
        if 'G' in st.mem:
            hw = self.hw(st)
            end = st.norm(ladd(off, n))
            if st.prove(lsub(hw, off)):
                if st.prove(lsub(end, hw)):
                    self.set_hw(st, end)
            else:
                self.ob('out-gap', 'out', ins, False,
                        lambda: "store at output offset %s leaves a gap after produced prefix %s" % (show(off), show(hw)))
        if self.bitmode:
            o = self.setobj(st, oid)
            sm = o.sym if o.sym is not None else {}
            base = off[1]
            if sm and base not in sm:
                sm = {}
                o.ro = 'clob'
            sm = {k: dict(d) for k, d in sm.items()}
            d = sm.setdefault(base, {})
            if isinstance(v, IV) and not n[1]:
                vb = self.bits(st, v)
                vb = vb + (0,) * (8 * n[0] - len(vb))
                for j in range(n[0]):
                    d[off[0] + j] = vb[8 * j:8 * j + 8]
            elif not n[1]:
                for j in range(n[0]):
                    self.fresh += 1
                    d[off[0] + j] = tuple(BT.get(('t', self.fresh, k)) for k in range(8))
            else:
                sm = {}
                o.ro = 'clob'
            o.sym = sm
        if self.on_store is not None:
            self.on_store(self, st, off, n, v, ins)

    # bulk operations
    def memset(self, st, p, val, n, ins):
        nl = self.U(st, n)
        if not nl[1] and nl[0] == 0:
            return
        o = self.deref(st, p, nl, ins, 'write')
        if o is None or isinstance(o, irload.GVar):
            if isinstance(o, irload.GVar):
                self.ob('gwrite', 'global:' + o.name, ins, False, "memset of global %s" % o.name)
            return
        off = st.norm(p.off)
        if o.kind == 'in':
            self.ob('in-write', 'in', ins, False, "memset of the input buffer")
            return
        c = self.const(st, val)
        if o.kind == 'out':
            v = None
            if c is not None and not nl[1] and nl[0] <= 64:
                v = konst(8 * nl[0], int.from_bytes(bytes([c & 255]) * nl[0], 'little'))
            self.out_write(st, p.obj, o, off, nl, v, ins)
            return
        o = self.setobj(st, p.obj)
        if off[1] or nl[1]:
            lo, hi = st.lower(off), st.upper(ladd(off, nl))
            if lo == -INF or hi == INF:
                o.cells = {}
                o.fills = ()
            else:
                o.cells = {q: x for q, x in o.cells.items() if q + x[0] <= lo or q >= hi}
                o.fills = tuple(f for f in o.fills if f[1] <= lo or f[0] >= hi)
            return
        a, b = off[0], off[0] + nl[0]
        self.kill_cells(st, o, a, b)
        nf = []
        for f in o.fills:
            if f[0] < b and f[1] > a:
                if f[0] < a:
                    nf.append((f[0], a, f[2], f[3]))
                if f[1] > b:
                    nf.append((b, f[1], f[2], f[3]))
            else:
                nf.append(f)
        if c is not None and (c & 255) == 0:
            nf.append((a, b, 0, ('zero',)))
        elif c is not None:
            nf.append((a, b, 1, (c & 255, c & 255)))
        o.fills = tuple(sorted(nf, key=lambda f: (f[0], f[1])))

    def memcpy(self, st, d, s, n, ins):
        nl = self.U(st, n)
        if not nl[1] and nl[0] == 0:
            return
        so = self.deref(st, s, nl, ins, 'read')
        if not nl[1] and nl[0] in (1, 2, 4, 8):
            ty = INTTY[nl[0] * 8]
            if so is None:
                v = self.fresh_iv(8 * nl[0])
            elif isinstance(so, irload.GVar):
                v = self.load(st, s, ty, ins)
            else:
                v = self.mread(st, s.obj, so, st.norm(s.off), ty, nl[0], ins)
                # pointers move as pointers
                if not s.off[1]:
                    c = so.cells.get(st.norm(s.off)[0])
                    if c is not None and c[0] == nl[0] and isinstance(c[1], PV):
                        v = c[1]
            self.log(st, ('cp', self.objkind(st, d), st.norm(d.off) if isinstance(d, PV) else None, nl[0],
                          self.objkind(st, s), st.norm(s.off) if isinstance(s, PV) else None, ins.line))
            do = self.deref(st, d, nl, ins, 'write')
            if do is None:
                return
            if isinstance(do, irload.GVar):
                self.ob('gwrite', 'global:' + do.name, ins, False, "memcpy into global %s" % do.name)
                return
            self.mwrite(st, d.obj, st.norm(d.off), v, ty, nl[0], ins)
            return
        if so is not None and not isinstance(so, irload.GVar) and so.kind == 'out':
            self.out_read(st, so, st.norm(s.off), nl, ins)
        do = self.deref(st, d, nl, ins, 'write')
        if do is None:
            return
        if isinstance(do, irload.GVar):
            self.ob('gwrite', 'global:' + do.name, ins, False, "memcpy into global %s" % do.name)
            return
        if do.kind == 'in':
            self.ob('in-write', 'in', ins, False, "memcpy into the input buffer")
            return
        off = st.norm(d.off)
        if do.kind == 'out':
            self.out_write(st, d.obj, do, off, nl, None, ins)
            return
        o = self.setobj(st, d.obj)
        if off[1] or nl[1]:
            o.cells = {}
            o.fills = ()
            return
        a, b = off[0], off[0] + nl[0]
        self.kill_cells(st, o, a, b)
        o.fills = tuple(f for f in o.fills if f[1] <= a or f[0] >= b)
        src = None
        if so is not None and not isinstance(so, irload.GVar) and so.kind not in ('in', 'out'):
            self.touch(st, s.obj, so, st.lower(s.off), st.upper(s.off) + nl[0])
        if isinstance(so, irload.GVar) and so.const and not st.norm(s.off)[1]:
            b0 = st.norm(s.off)[0]
            for q, (sz, vv) in self.gcells(so).items():
                if b0 <= q and q + sz <= b0 + nl[0]:
                    o.cells[a + q - b0] = (sz, self.opv(st, vv))
        elif so is not None and not isinstance(so, irload.GVar) and so.kind not in ('in', 'out') and not st.norm(s.off)[1]:
            b0 = st.norm(s.off)[0]
            for q, (sz, vv) in list(so.cells.items()):
                if b0 <= q and q + sz <= b0 + nl[0]:
                    o.cells[a + q - b0] = (sz, vv)
            nf = list(o.fills)
            for f in so.fills:
                x, y = max(f[0], b0), min(f[1], b0 + nl[0])
                if x < y:
                    nf.append((a + x - b0, a + y - b0, f[2], f[3]))
            o.fills = tuple(sorted(nf, key=lambda f: (f[0], f[1])))

    def objkind(self, st, p):
        if not isinstance(p, PV):
            return '?'
        o = st.mem.get(p.obj)
        return o.kind if o is not None else '?'

    def log(self, st, ev):
        if self.events_on:
            st.log = (st.log, ev)


def mkint(w):
    t = irload.Ty()
    t.k = 'int'
    t.w = w
    t.size = t.store = (w + 7) // 8
    t.elem = t.n = t.fields = t.offs = t.name = None
    return t


INTTY = {w: mkint(w) for w in (1, 8, 16, 32, 64)}
