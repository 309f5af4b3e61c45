"""Numeric and bit-provenance abstract domain.

Linear expressions are (const, ((sym,coef),...)) with sorted terms.  A State carries, per abstract state:
  iv   interval refinements per symbol
  eq   solved affine equalities  sym -> Lin          (affine-equality / Karr part)
  cons inequalities Lin >= 0 over >= 2 symbols         (weak polyhedra part, entailment by elimination)
  dis  disequalities Lin != 0
No solver is called; entailment is Fourier-Motzkin style elimination with a fixed depth.
"""
from math import gcd

INF = float('inf')


class Infeasible(Exception):
    pass


class Split(Exception):
    def __init__(self, e, why=''):
        self.e = e          # states e>=0 and -e-1>=0
        self.why = why


class SplitCond(Exception):
    def __init__(self, cond):
        self.cond = cond


ZERO = (0, ())


def lc(c):
    return (c, ())


def ladd(a, b):
    ta, tb = a[1], b[1]
    if not tb:
        return (a[0] + b[0], ta)
    if not ta:
        return (a[0] + b[0], tb)
    d = dict(ta)
    for s, k in tb:
        n = d.get(s, 0) + k
        if n:
            d[s] = n
        else:
            del d[s]
    return (a[0] + b[0], tuple(sorted(d.items())))


def lneg(a):
    return (-a[0], tuple((s, -k) for s, k in a[1]))


def lsub(a, b):
    if not b[1]:
        return (a[0] - b[0], a[1])
    return ladd(a, lneg(b))


def lmul(a, k):
    if k == 0:
        return ZERO
    if k == 1:
        return a
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))


def laddc(a, c):
    return (a[0] + c, a[1])


# ------------------------------------------------------------------ symbols
class Syms:
    def __init__(self):
        self.rng = []
        self.name = []
        self.memo = {}
        self.noise = set()
        self.param = set()
        self.bitsof = {}    # sym -> bits tuple it stands for

    def new(self, name, lo=-INF, hi=INF, param=False):
        i = len(self.rng)
        self.rng.append((lo, hi))
        self.name.append(name)
        if param:
            self.param.add(i)
        return i

    def memoized(self, key, name, lo, hi):
        i = self.memo.get(key)
        if i is None:
            i = self.new(name, lo, hi)
            self.memo[key] = i
        return i


SY = Syms()


def reset():
    global SY
    SY.__init__()
    BT.__init__()


def sym(i):
    return (0, ((i, 1),))


def show(e):
    s = []
    for k, c in e[1]:
        n = SY.name[k] + "#%d" % k
        s.append(n if c == 1 else ("-" + n if c == -1 else "%d*%s" % (c, n)))
    if e[0] or not s:
        s.append(str(e[0]))
    return " + ".join(s)


# ------------------------------------------------------------------ bits
class BitTab:
    """interned bit provenances; ids 0 and 1 are the constants"""
    def __init__(self):
        self.t = [('c', 0), ('c', 1)]
        self.m = {}

    def get(self, key):
        i = self.m.get(key)
        if i is None:
            i = len(self.t)
            self.t.append(key)
            self.m[key] = i
        return i


BT = BitTab()


def show_bit(b):
    if b < 2:
        return str(b)
    k = BT.t[b]
    if k[0] == 'l':
        return "%s.%d" % (show(k[1]), k[2])
    if k[0] == 'm':
        return "%s[%s].%d" % (k[1], show(k[2]), k[3])
    return str(k)


class IV:
    __slots__ = ('w', 'lin', 'bits', 'cond')

    def __init__(self, w, lin=None, bits=None, cond=None):
        self.w = w
        self.lin = lin
        self.bits = bits
        self.cond = cond

    def __repr__(self):
        if self.cond is not None:
            return "i1<%r>" % (self.cond,)
        if self.lin is not None:
            return "i%d<%s>" % (self.w, show(self.lin))
        return "i%d<bits %s>" % (self.w, ",".join(show_bit(b) for b in self.bits[::-1]) if self.bits else '?')


class PV:
    __slots__ = ('obj', 'off', 'tag')

    def __init__(self, obj, off=ZERO, tag=None):
        self.obj = obj
        self.off = off
        self.tag = tag

    def __repr__(self):
        return "&%s+%s" % (self.obj, show(self.off))


class AG:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return "AG%r" % (self.f,)


class TV:
    """opaque value (fp, metadata, vectors)"""
    __slots__ = ()

    def __repr__(self):
        return "TOP"


TOP = TV()
NULLP = PV('null')


def konst(w, c):
    return IV(w, (c % (1 << w), ()))


# ------------------------------------------------------------------ state
class MObj:
    """memory object. cells: const offset -> (size, value); fills: list of (lo, hi, kind, summary)
    sym: (terms) -> {const: bit8}  byte-granular content at symbolic offsets (content tracking objects)"""
    __slots__ = ('size', 'kind', 'cells', 'fills', 'sym', 'ro', 'depth', 'state', 'wt')

    def __init__(self, size, kind, depth=0):
        self.wt = {}            # cell offset -> time of its last write
        self.size = size        # Lin or None (unknown)
        self.kind = kind
        self.cells = {}
        self.fills = ()
        self.sym = None
        self.ro = False
        self.depth = depth
        self.state = 'live'

    def copy(self):
        o = MObj.__new__(MObj)
        o.size = self.size
        o.kind = self.kind
        o.cells = dict(self.cells)
        o.fills = self.fills
        o.sym = self.sym
        o.ro = self.ro
        o.depth = self.depth
        o.state = self.state
        o.wt = dict(self.wt)
        return o


def d0(e):
    return [s for s, _ in e[1]]


class State:
    __slots__ = ('iv', 'cons', 'eq', 'dis', 'frames', 'mem', 'log', 'tags', 'passed')

    def __init__(self):
        self.iv = {}
        self.cons = frozenset()
        self.eq = {}
        self.dis = ()
        self.frames = []
        self.mem = {}
        self.log = ()
        self.tags = ()
        self.passed = {}        # merge point -> time this path last went through it

    def copy(self):
        s = State.__new__(State)
        s.iv = dict(self.iv)
        s.cons = self.cons
        s.eq = self.eq
        s.dis = self.dis
        s.frames = list(self.frames)
        if s.frames:
            s.frames[-1] = dict(s.frames[-1])
        s.mem = dict(self.mem)
        s.log = self.log
        s.tags = self.tags
        s.passed = self.passed
        return s

    # ---- linear normalisation
    def norm(self, e):
        eq = self.eq
        if not eq or not e[1]:
            return e
        for s, k in e[1]:
            if s in eq:
                break
        else:
            return e
        r = (e[0], ())
        rest = []
        for s, k in e[1]:
            q = eq.get(s)
            if q is None:
                rest.append((s, k))
            else:
                r = ladd(r, lmul(q, k))
        r = ladd(r, (0, tuple(rest)))
        return r

    def rng(self, s):
        r = self.iv.get(s)
        return r if r is not None else SY.rng[s]

    def ilo(self, e):
        lo = e[0]
        iv = self.iv
        R = SY.rng
        for s, k in e[1]:
            r = iv.get(s) or R[s]
            b = r[0] if k > 0 else r[1]
            if b in (INF, -INF):
                return -INF
            lo += k * b
        return lo

    def ihi(self, e):
        hi = e[0]
        iv = self.iv
        R = SY.rng
        for s, k in e[1]:
            r = iv.get(s) or R[s]
            b = r[1] if k > 0 else r[0]
            if b in (INF, -INF):
                return INF
            hi += k * b
        return hi

    def prove(self, e, depth=4):
        """is e >= 0 entailed?"""
        e = self.norm(e)
        if self.ilo(e) >= 0:
            return True
        if not e[1]:
            return False
        if not self.cons:
            return False
        # breadth-first elimination: e - (multiples of known facts) until the interval bound suffices
        seen = {e}
        level = [e]
        work = 0
        cons = self.cons
        while depth > 0 and level:
            depth -= 1
            nxt = []
            for x in level:
                d = dict(x[1])
                for g in cons:
                    for s, gk in g[1]:
                        k = d.get(s)
                        if k is not None and (k > 0) == (gk > 0):
                            if k == gk:
                                n = lsub(x, g)
                            else:
                                ak, agk = abs(k), abs(gk)
                                dv = gcd(ak, agk)
                                m2 = agk // dv
                                # x >= 0  <=>  m2*x + m2-1 >= 0 over the integers
                                n = laddc(lsub(lmul(x, m2), lmul(g, ak // dv)), m2 - 1)
                                if len(n[1]) == 1:
                                    q = abs(n[1][0][1])
                                    if q > 1:
                                        n = (n[0] // q, ((n[1][0][0], n[1][0][1] // q),))
                            if n in seen:
                                continue
                            seen.add(n)
                            if not n[1]:
                                if n[0] >= 0:
                                    return True
                                continue
                            if self.ilo(n) >= 0:
                                return True
                            nxt.append(n)
                            work += 1
                if work > 3000:
                    return False
            if len(nxt) > 50:
                nxt.sort(key=lambda n: (len(n[1]), sum(1 for s, k in n[1] if s not in d0(e))))
                nxt = nxt[:50]
            level = nxt
        return False

    def lower(self, e):
        """best provable lower bound (interval plus one elimination step)"""
        e = self.norm(e)
        best = self.ilo(e)
        if not e[1] or not self.cons:
            return best
        todo = [(e, 1)]
        for rnd in range(2):
            nxt = []
            for x, sc in todo:
                d = dict(x[1])
                for g in self.cons:
                    for s, gk in g[1]:
                        k = d.get(s)
                        if k is not None and (k > 0) == (gk > 0):
                            ak, agk = abs(k), abs(gk)
                            dv = gcd(ak, agk)
                            m = agk // dv
                            n = lsub(lmul(x, m), lmul(g, ak // dv))
                            v = self.ilo(n)
                            if v > -INF:
                                v = -((-v) // (sc * m))
                                if v > best:
                                    best = v
                            if len(nxt) < 60:
                                nxt.append((n, sc * m))
            todo = nxt
        return best

    def upper(self, e):
        r = self.lower(lneg(e))
        return -r

    # ---- adding facts
    def set_iv(self, s, lo, hi):
        o = self.rng(s)
        if lo < o[0]:
            lo = o[0]
        if hi > o[1]:
            hi = o[1]
        if lo > hi:
            raise Infeasible()
        if (lo, hi) == o:
            return False
        self.iv[s] = (lo, hi)
        if lo == hi:
            self._solve(s, (lo, ()))
        return True

    def _solve(self, s, rhs):
        """s := rhs (rhs does not contain s)"""
        r = self.rng(s)
        neq = {}
        for t, q in self.eq.items():
            if any(x == s for x, _ in q[1]):
                k = dict(q[1])[s]
                q = ladd(q, lsub(lmul(rhs, k), (0, ((s, k),))))
            neq[t] = q
        neq[s] = rhs
        self.eq = neq
        oldc = self.cons
        keep = []
        redo = []
        for g in oldc:
            if any(x == s for x, _ in g[1]):
                redo.append(g)
            else:
                keep.append(g)
        if redo:
            self.cons = frozenset(keep)
            for g in redo:
                self.add_ge(g)
        if rhs[1]:
            if r[0] > -INF:
                self.add_ge(laddc(rhs, -r[0]))
            if r[1] < INF:
                self.add_ge(lsub(lc(r[1]), rhs))
        elif not (r[0] <= rhs[0] <= r[1]):
            raise Infeasible()
        if self.dis:
            nd = []
            for x in self.dis:
                y = self.norm(x)
                if not y[1]:
                    if y[0] == 0:
                        raise Infeasible()
                    continue
                nd.append(y)
            self.dis = tuple(nd)

    def add_ge(self, e, depth=0):
        e = self.norm(e)
        t = e[1]
        if not t:
            if e[0] < 0:
                raise Infeasible()
            return
        g = 0
        for _, k in t:
            g = gcd(g, k)
        if g > 1:
            e = (e[0] // g, tuple((s, k // g) for s, k in t))
            t = e[1]
        if len(t) == 1:
            s, k = t[0]
            if k > 0:
                ch = self.set_iv(s, -e[0], INF)     # s >= -c
            else:
                ch = self.set_iv(s, -INF, e[0])
            if ch and depth < 6:
                self._propagate(s, depth + 1)
            self._dis_tighten()
            return
        if e in self.cons:
            return
        if self.ihi(e) < 0:
            raise Infeasible()
        lo = self.ilo(e)
        if lo < 0 or True:
            neg = lneg(e)
            # opposite present => equality
            if neg in self.cons:
                self.cons = self.cons - {neg}
                self.add_eq(e)
                return
            for g2 in self.cons:
                if g2[1] == t:
                    if g2[0] <= e[0]:
                        return          # stronger already present
            self.cons = frozenset([g2 for g2 in self.cons if g2[1] != t] + [e])
            # infeasibility with the opposite bound
            for g2 in self.cons:
                if g2[1] == neg[1] and g2[0] + e[0] < 0:
                    raise Infeasible()
                if g2[1] == neg[1] and g2[0] + e[0] == 0:
                    self.cons = self.cons - {g2, e}
                    self.add_eq(e)
                    return
        if depth < 6:
            self._prop1(e, depth + 1)
        self._dis_tighten()

    def _prop1(self, e, depth):
        """interval propagation through e >= 0"""
        t = e[1]
        for s, k in t:
            rest = (e[0], tuple(x for x in t if x[0] != s))
            h = self.ihi(rest)
            if h == INF:
                continue
            o = self.rng(s)
            # k*s + rest >= 0  -> k*s >= -h
            if k > 0:
                lo = -(h // k)
                if lo > o[0]:
                    if self.set_iv(s, lo, INF) and depth < 6:
                        self._propagate(s, depth + 1)
            else:
                hi = h // (-k)
                if hi < o[1]:
                    if self.set_iv(s, -INF, hi) and depth < 6:
                        self._propagate(s, depth + 1)
            if s in self.eq:
                return

    def _propagate(self, s, depth):
        for g in list(self.cons):
            if g in self.cons and any(x == s for x, _ in g[1]):
                self._prop1(g, depth)

    def _dis_tighten(self):
        if not self.dis:
            return
        ds = self.dis
        for x in ds:
            y = self.norm(x)
            if not y[1]:
                if y[0] == 0:
                    raise Infeasible()
                continue
            if len(y[1]) == 1:
                s, k = y[1][0]
                r = self.rng(s)
                if (-y[0]) % k == 0:
                    v = -y[0] // k
                    if v == r[0] and v == r[1]:
                        raise Infeasible()
                    if v == r[0]:
                        self.dis = tuple(z for z in self.dis if z is not x)
                        self.add_ge((-(v + 1), ((s, 1),)))
                        return self._dis_tighten()
                    if v == r[1]:
                        self.dis = tuple(z for z in self.dis if z is not x)
                        self.add_ge((v - 1, ((s, -1),)))
                        return self._dis_tighten()

    def add_eq(self, e):
        e = self.norm(e)
        t = e[1]
        if not t:
            if e[0]:
                raise Infeasible()
            return
        g = 0
        for _, k in t:
            g = gcd(g, k)
        if e[0] % g:
            raise Infeasible()
        if g > 1:
            e = (e[0] // g, tuple((s, k // g) for s, k in t))
            t = e[1]
        lo, hi = self.ilo(e), self.ihi(e)
        if lo > 0 or hi < 0:
            raise Infeasible()
        best = None
        for s, k in t:
            if abs(k) == 1 and (best is None or
                                ((s in SY.param), -s) < ((best[0] in SY.param), -best[0])):
                best = (s, k)
        if best is None:
            if len(t) == 1:
                raise AssertionError
            c2 = set(self.cons)
            c2.add(e)
            c2.add(lneg(e))
            self.cons = frozenset(c2)
            self._prop1(e, 1)
            self._prop1(lneg(e), 1)
            return
        s, k = best
        rest = (e[0], tuple(x for x in t if x[0] != s))
        rhs = lneg(rest) if k == 1 else rest
        if SY.bitsof.get(s) is not None and not rhs[1] :
            self.note_bits(s, rhs[0])
        self._solve(s, rhs)
        if s in self.iv:
            del self.iv[s]
        for x, _ in rhs[1]:
            self._propagate(x, 3)

    def note_bits(self, s, c):
        pass

    def add_ne(self, e):
        e = self.norm(e)
        if not e[1]:
            if e[0] == 0:
                raise Infeasible()
            return
        g = 0
        for _, k in e[1]:
            g = gcd(g, k)
        if e[0] % g:
            return
        if g > 1:
            e = (e[0] // g, tuple((s, k // g) for s, k in e[1]))
        if self.prove(e):
            self.add_ge(laddc(e, -1))
            return
        if self.prove(lneg(e)):
            self.add_ge(laddc(lneg(e), -1))
            return
        if e[1][0][1] < 0:
            e = lneg(e)
        if e not in self.dis:
            self.dis = self.dis + (e,)
        self._dis_tighten()

    def is_zero(self, e):
        """True / False / None for e == 0"""
        e = self.norm(e)
        if not e[1]:
            return e[0] == 0
        lo, hi = self.ilo(e), self.ihi(e)
        if lo > 0 or hi < 0:
            return False
        g = 0
        for _, k in e[1]:
            g = gcd(g, k)
        if e[0] % g:
            return False
        f = e if e[1][0][1] > 0 else lneg(e)
        if g > 1:
            f = (f[0] // g, tuple((s, k // g) for s, k in f[1]))
        if f in self.dis:
            return False
        if self.prove(laddc(e, -1)) or self.prove(laddc(lneg(e), -1)):
            return False
        return None

    # ---- multiplication structure helpers
    def divmod2(self, u, m):
        """u = m*q + r, 0<=r<m, for Lin u (math integer). returns (q, r)"""
        u = self.norm(u)
        if m == 1:
            return u, ZERO
        c = u[0]
        A = [(s, k // m) for s, k in u[1] if k % m == 0]
        B = tuple((s, k) for s, k in u[1] if k % m)
        cq, cr = divmod(c, m)
        if not B:
            return (cq, tuple(A)), (cr, ())
        b = (cr, B)
        lo, hi = self.ilo(b), self.ihi(b)
        if lo > -INF and hi < INF and lo // m == hi // m:
            k = lo // m
            return (cq + k, tuple(A)), laddc(b, -k * m)
        k = None
        # canonical residue first: reduce coefficients of B modulo m only when already in range
        if self.prove(b) and self.prove(lsub(lc(m - 1), b)):
            return (cq, tuple(A)), b
        qs = SY.memoized(('q', b, m), 'q%d' % m, -INF, INF)
        q = sym(qs)
        r = self.norm(lsub(b, lmul(q, m)))
        if self.norm(q) == q:
            if lo < 0 and self.prove(b):
                lo = 0
            if lo > -INF:
                self.set_iv(qs, lo // m, INF)
            if hi < INF:
                self.set_iv(qs, -INF, hi // m)
        q = self.norm(q)
        r = self.norm(lsub(b, lmul(q, m)))
        self.add_ge(r)
        r = self.norm(r)
        self.add_ge(lsub(lc(m - 1), r))
        q = self.norm(q)
        r = self.norm(r)
        return ladd((cq, tuple(A)), q), r
