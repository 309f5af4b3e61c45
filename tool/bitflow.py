"""Bit-provenance dataflow over LLVM IR.

Every integer is a vector of bit origins (constant 0/1, stream bit k, copied output bit, unknown), every pointer an (object, offset)
pair; nothing is executed and no solver is involved.  Branches whose condition is not determined by constants are followed both ways,
with interval facts about the compared bit vector kept on the path.
"""
from collections import namedtuple
from fractions import Fraction
import re
import irload


class B(tuple):
    __slots__ = ()


P = namedtuple('P', 'obj off')
S = namedtuple('S', 'q c bits')           # q*BASE + c + value(bits)
CMP = namedtuple('CMP', 'pred a b')
FN = namedtuple('FN', 'name')


class _Top:
    def __repr__(self):
        return 'TOP'


TOP = _Top()
SYMS = ('T', 'I', 'N', 'M')                # output position, input position, input length, output capacity (symbolic parts)
RANGE = [(4096, 1 << 31), (0, 1 << 31), (1 << 60, 1 << 61), (1 << 58, 1 << 59)]
GRAN = [2048, 8, 1, 1]                     # the symbols are multiples of these


class Q(tuple):
    """coefficients of the symbols"""
    __slots__ = ()

    def __add__(self, o):
        return Q(a + b for a, b in zip(self, o))

    def __sub__(self, o):
        return Q(a - b for a, b in zip(self, o))

    def __neg__(self):
        return Q(-a for a in self)

    def times(self, k):
        return Q(a * k for a in self)

    def over(self, k):
        return Q(Fraction(a) / k for a in self)

    def divides(self, k):
        return all(a * g % k == 0 for a, g in zip(self, GRAN))

    def range(self):
        lo = hi = 0
        for a, (x, y) in zip(self, RANGE):
            if a > 0:
                lo, hi = lo + a * x, hi + a * y
            elif a < 0:
                lo, hi = lo + a * y, hi + a * x
        return lo, hi


Q0 = Q((0,) * len(SYMS))


def sym(name, k=1):
    return Q(k if s == name else 0 for s in SYMS)


class Limit(Exception):
    pass


class Stop(Exception):
    """the path does something the analysis gives up on"""


KEYS = [None, None]
KID = {}


def key(k):
    i = KID.get(k)
    if i is None:
        i = len(KEYS)
        KEYS.append(k)
        KID[k] = i
    return i


def terms(p):
    """a bit as a GF(2) sum: (set of keys, constant)"""
    if p < 2:
        return frozenset(), p
    k = KEYS[p]
    if k[0] == 'x':
        return k[1], k[2]
    return frozenset((p,)), 0


def gsum(s, c):
    if not s:
        return c
    if len(s) == 1 and not c:
        return next(iter(s))
    return key(('x', s, c))


def xor(p, q):
    if p == 0:
        return q
    if q == 0:
        return p
    if p < 0 or q < 0:
        return -1
    if p == q:
        return 0
    (a, c), (b, d) = terms(p), terms(q)
    return gsum(a ^ b, c ^ d)


def bits_of_int(v, w):
    return B((v >> i) & 1 for i in range(w))


def as_bits(v, w):
    if isinstance(v, int):
        return bits_of_int(v, w)
    if isinstance(v, B):
        return v
    return B((-1,) * w)


def simp(b):
    """bit vector -> int if constant"""
    r = 0
    for i, x in enumerate(b):
        if x == 1:
            r |= 1 << i
        elif x != 0:
            return b
    return r


def mkS(q, c, bits):
    if bits is not None:
        bits = tuple(bits)
        while bits and bits[-1] == 0:
            bits = bits[:-1]
        if not bits:
            bits = None
    if not any(q) and bits is None:
        return c
    return S(q, c, bits)


def toS(v):
    if isinstance(v, int):
        return S(Q0, v, None)
    if isinstance(v, S):
        return v
    if isinstance(v, B):
        if -1 in v:
            return None
        b = tuple(v)
        while b and b[-1] == 0:
            b = b[:-1]
        return S(Q0, 0, b or None)
    return None


_CORE = {}


def core(bits):
    """value(bits) = add + (value(core) << shift)"""
    r = _CORE.get(bits)
    if r is None:
        add = sum(1 << i for i, x in enumerate(bits) if x == 1)
        b = [0 if x == 1 else x for x in bits]
        while b and b[-1] == 0:
            b.pop()
        z = 0
        while z < len(b) and b[z] == 0:
            z += 1
        r = _CORE[bits] = (add, z, tuple(b[z:]))
    return r


def brange(bits, cons):
    if bits is None:
        return 0, 0
    add, z, b = core(bits)
    lo, hi = 0, sum(1 << i for i, x in enumerate(b) if x != 0)
    r = cons.get(b)
    if r:
        lo, hi = max(lo, r[0]), min(hi, r[1])
    return add + (lo << z), add + (hi << z)


def srange(s, cons):
    lo, hi = brange(s.bits, cons)
    a, b = s.q.range()
    return s.c + lo + a, s.c + hi + b


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x


class State:
    __slots__ = ('frames', 'mem', 'cons', 'eqs', 'imp', 'ev')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.cons = {}
        self.eqs = ()
        self.imp = ''           # a condition on this path could not be represented
        self.ev = ()

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.cons = dict(self.cons)
        s.eqs, s.imp, s.ev = self.eqs, self.imp, self.ev
        return s


class Frame:
    __slots__ = ('fn', 'blk', 'pred', 'i', 'env', 'call')

    def __init__(self, fn, call=None):
        self.fn = fn
        self.blk = fn.entry
        self.pred = None
        self.i = 0
        self.env = {}
        self.call = call

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.pred, f.i, f.call = self.fn, self.blk, self.pred, self.i, self.call
        f.env = dict(self.env)
        return f


class Flow:
    """subclass hooks: load_obj(st, obj, off, size) for symbolic objects, external(st, ins, name, args)"""

    def __init__(self, funcs, gvars, steps=400000):
        self.funcs, self.gvars = funcs, gvars
        self.steps = 0
        self.max_steps = steps
        self.header = None        # (depth, block): iteration boundary
        self.tables = {}
        self.nonaffine = {}

    # ---------------------------------------------------------- values
    def val(self, v, fr):
        k = v.k
        if k == 'inst':
            try:
                return fr.env[v.v.id]
            except KeyError:
                return TOP
        if k == 'cint':
            return v.v
        if k == 'arg':
            return fr.env.get(('a', v.v), TOP)
        if k == 'null':
            return 0
        if k == 'gvar':
            return P('@' + v.v, 0)
        if k == 'func':
            return FN(v.v)
        if k == 'zero':
            return 0
        if k == 'undef':
            return B((-1,) * v.ty.w) if v.ty is not None and v.ty.k == 'int' else TOP
        if k == 'cexpr':
            ops, x = v.x
            if v.v == 'getelementptr':
                return self.gep(x, [self.val(o, fr) for o in ops], ops)
            if v.v in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
                return self.val(ops[0], fr)
        return TOP

    def gep(self, ty, a, ops):
        p = a[0]
        if isinstance(p, int):
            p = P('#', p)
        if not isinstance(p, P):
            return TOP
        off = p.off
        t = ty
        for k, x in enumerate(a[1:]):
            if k == 0:
                sz = t.size
            elif t.k == 'struct':
                if not isinstance(x, int):
                    return TOP
                off = self.add(off, t.offs[x], 64)
                t = t.fields[x]
                continue
            else:
                t = t.elem
                sz = t.size
            w = ops[k + 1].ty.w if ops[k + 1].ty is not None and ops[k + 1].ty.k == 'int' else 64
            if isinstance(x, int):
                x = sgn(x, w)
            off = self.add(off, self.mulc(x, sz), 64)
        if off is TOP:
            return P(p.obj, TOP)
        if isinstance(off, int):
            off = sgn(off & ((1 << 64) - 1), 64)
        return P(p.obj, off)

    def mulc(self, x, k):
        if isinstance(x, int):
            return x * k
        if k == 1:
            return x
        if k == 0:
            return 0
        if k & (k - 1) == 0 and isinstance(x, B):
            s = k.bit_length() - 1
            return B((0,) * s + tuple(x)[:max(0, len(x) - s)]) if all(b == 0 for b in x[len(x) - s:]) else TOP
        s = toS(x)
        if s is None:
            return TOP
        if s.bits is not None:
            if k < 0 or k & (k - 1):
                return TOP
            b = (0,) * (k.bit_length() - 1) + s.bits
        else:
            b = None
        return mkS(s.q.times(k), s.c * k, b)

    def add(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        if a is TOP or b is TOP:
            return TOP
        if isinstance(b, P) and not isinstance(a, P):
            a, b = b, a
        if isinstance(a, P):
            if isinstance(b, P):
                return TOP
            o = self.add(a.off, sgn(b & (1 << 64) - 1, 64) if isinstance(b, int) else b, 64)
            return P(a.obj, o)
        if isinstance(a, (int, B)) and isinstance(b, (int, B)) and (isinstance(a, B) or isinstance(b, B)):
            if not (isinstance(a, int) and a < 0) and not (isinstance(b, int) and b < 0):
                x, y = as_bits(a, w), as_bits(b, w)
                if len(x) == len(y) and all(p == 0 or q == 0 for p, q in zip(x, y)):
                    return simp(B(p or q for p, q in zip(x, y)))
        x, y = toS(a), toS(b)
        if x is None or y is None or (x.bits is not None and y.bits is not None):
            return TOP
        r = mkS(x.q + y.q, x.c + y.c, x.bits if x.bits is not None else y.bits)
        return r

    def neg(self, a):
        if isinstance(a, int):
            return -a
        s = toS(a)
        if s is None or s.bits is not None:
            return TOP
        return mkS(-s.q, -s.c, None)

    def sub(self, a, b, w):
        if isinstance(a, P) and isinstance(b, P):
            if a.obj != b.obj:
                return TOP
            return self.sub(a.off, b.off, 64)
        if isinstance(a, S) and isinstance(b, (S, B)):
            t = toS(b)
            if t is not None and t.bits is not None and t.bits == a.bits:
                return mkS(a.q - t.q, a.c - t.c, None)
        if isinstance(b, P):
            return TOP
        return self.add(a, self.neg(b), w)

    def fin(self, r, w):
        """bring an arithmetic result into the width"""
        if isinstance(r, int):
            return r & ((1 << w) - 1)
        if r is TOP:
            return B((-1,) * w)
        if isinstance(r, S):
            if w < 64:
                lo, hi = srange(r, {})
                if lo < 0 or hi >= 1 << w:
                    return B((-1,) * w)
        return r

    def binop(self, ins, a, b):
        op = ins.op
        w = ins.ty.w
        M = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w:
                    return B((-1,) * w)
                return (a << b) & M if op == 'shl' else a >> b if op == 'lshr' else (sgn(a, w) >> b) & M
            if b == 0:
                return B((-1,) * w)
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if op == 'sdiv' else x - q * y) & M
        if op == 'add':
            return self.fin(self.add(a if not isinstance(a, int) else sgn(a, w), b if not isinstance(b, int) else sgn(b, w), w), w)
        if op == 'sub':
            return self.fin(self.sub(a if not isinstance(a, int) else sgn(a, w), b if not isinstance(b, int) else sgn(b, w), w), w)
        if op == 'mul':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    return 0
                if isinstance(a, B) and b & (b - 1) == 0:
                    s = b.bit_length() - 1
                    return simp(B((0,) * s + tuple(a)[:w - s]))
                return self.fin(self.mulc(a, b), w)
            return B((-1,) * w)
        if op in ('and', 'or', 'xor'):
            if isinstance(a, P) and op == 'and' and isinstance(b, int):
                if b < 64 and isinstance(a.off, int):      # objects are aligned
                    return a.off & b
                return B((-1,) * w)
            for x, y in ((a, b), (b, a)):
                if op == 'and' and isinstance(x, S) and isinstance(y, int) and x.bits is None:
                    lowmask = y & (y + 1) == 0
                    k = 1 << (y.bit_length()) if lowmask else (~y & M) + 1
                    if lowmask and y < 2048 and x.q.divides(k):
                        return x.c & y
                    if not lowmask and k & (k - 1) == 0 and k <= 2048 and x.q.divides(k):
                        return mkS(x.q, x.c - x.c % k, None)
            x, y = as_bits(a, w), as_bits(b, w)
            if op == 'and':
                r = [0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 else p if p == q else -1 for p, q in zip(x, y)]
            elif op == 'or':
                r = [1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 else p if p == q else -1 for p, q in zip(x, y)]
            else:
                r = [xor(p, q) for p, q in zip(x, y)]
            return simp(B(r))
        if op in ('shl', 'lshr', 'ashr'):
            if not isinstance(b, int) or b >= w:
                return B((-1,) * w)
            if isinstance(a, S):
                if op == 'shl':
                    return self.fin(self.mulc(a, 1 << b), w)
                if a.bits is None and a.q.divides(1 << b):
                    return mkS(a.q.over(1 << b), a.c >> b, None)
                return B((-1,) * w)
            if isinstance(a, P):
                return B((-1,) * w)
            x = tuple(as_bits(a, w))
            if op == 'shl':
                return simp(B((0,) * b + x[:w - b]))
            return simp(B(x[b:] + ((0 if op == 'lshr' else x[-1]),) * b))
        if op in ('udiv', 'urem', 'sdiv', 'srem') and isinstance(b, int) and b and b & (b - 1) == 0:
            s = b.bit_length() - 1
            if isinstance(a, B) and (op[0] == 'u' or a[-1] == 0):
                return simp(B(tuple(a)[s:] + (0,) * s)) if 'div' in op else simp(B(tuple(a)[:s] + (0,) * (w - s)))
            if isinstance(a, P) and 'rem' in op and isinstance(a.off, int) and b <= 64:
                return a.off % b
            if isinstance(a, S) and a.bits is None and a.c >= 0 and a.q.divides(b):
                return mkS(a.q.over(b), a.c // b, None) if 'div' in op else a.c % b
        if op in ('sdiv', 'udiv') and isinstance(a, (S,)) and b == 1:
            return a
        return B((-1,) * w)

    def decide(self, st, c):
        """truth of a comparison on this path, or None"""
        pred, a, b = c
        if isinstance(a, FN) or isinstance(b, FN):
            return None
        if isinstance(a, P) or isinstance(b, P):
            if isinstance(a, P) and isinstance(b, P):
                if a.obj != b.obj:
                    return {'eq': False, 'ne': True}.get(pred)
                a, b = a.off, b.off
            else:
                o = b if isinstance(a, P) else a
                if o == 0 or isinstance(o, P):
                    return {'eq': False, 'ne': True, 'ugt': isinstance(a, P), 'ult': isinstance(b, P)}.get(pred)
                return None
        if pred in ('eq', 'ne') and isinstance(a, (int, B)) and isinstance(b, (int, B)):
            w = len(a) if isinstance(a, B) else len(b) if isinstance(b, B) else 64
            x, y = as_bits(a, w), as_bits(b, w)
            if any((p == 0 and q == 1) or (p == 1 and q == 0) for p, q in zip(x, y)):
                return pred == 'ne'
            if x == y and -1 not in x:
                return pred == 'eq'
        x, y = toS(a), toS(b)
        if x is None or y is None:
            if isinstance(a, B) and isinstance(b, (B, int)) or isinstance(b, B) and isinstance(a, int):
                la, ha = self.rng(a)
                lb, hb = self.rng(b)
                d = (la - hb, ha - lb)
            else:
                return None
        else:
            la, ha = srange(x, st.cons)
            lb, hb = srange(y, st.cons)
            if x.bits == y.bits:
                d = srange(S(x.q - y.q, x.c - y.c, None), st.cons)
            elif y.bits is None:
                d = srange(S(x.q - y.q, x.c - y.c, x.bits), st.cons)
            elif x.bits is None:
                e = srange(S(y.q - x.q, y.c - x.c, y.bits), st.cons)
                d = (-e[1], -e[0])
            else:
                d = (la - hb, ha - lb)
            if pred[0] == 'u' and (la < 0 or lb < 0):
                # a value that may be negative is large when unsigned
                if la >= 0 and hb < 0 or lb >= 0 and ha < 0:
                    small = la >= 0
                    return {'ult': small, 'ule': small, 'ugt': not small, 'uge': not small}[pred]
                return None
        if pred in ('eq', 'ne'):
            if d[0] > 0 or d[1] < 0:
                return pred == 'ne'
            if d == (0, 0):
                return pred == 'eq'
            return None
        p = pred[1:]
        if p == 'lt':
            return True if d[1] < 0 else False if d[0] >= 0 else None
        if p == 'le':
            return True if d[1] <= 0 else False if d[0] > 0 else None
        if p == 'gt':
            return True if d[0] > 0 else False if d[1] <= 0 else None
        return True if d[0] >= 0 else False if d[1] < 0 else None

    def rng(self, v):
        if isinstance(v, int):
            return v, v
        return sum(1 << i for i, x in enumerate(v) if x == 1), sum(1 << i for i, x in enumerate(v) if x != 0)

    def assume(self, st, c, t):
        """record a comparison outcome; False if it contradicts the path"""
        pred, a, b = c
        if not t:
            pred = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult', 'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt'}[pred]
        if isinstance(a, P) and isinstance(b, P) and a.obj == b.obj:
            a, b = a.off, b.off
        st.eqs = st.eqs + ((pred, a, b),) if pred in ('eq', 'ne') else st.eqs
        x, y = toS(a), toS(b)
        if x is None or y is None:
            st.imp = st.imp or self.where(st)
            return True
        if y.bits is not None and x.bits is None:
            x, y = y, x
            pred = {'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule', 'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle'}.get(pred, pred)
        if x.bits is None or y.bits is not None or x.q != y.q:
            if not (pred in ('eq', 'ne') and x.bits is not None and y.bits is not None):
                st.imp = st.imp or self.where(st)
            return True
        # add + (core << z) + x.c  pred  y.c
        add, z, cb = core(x.bits)
        k = y.c - x.c - add
        lo, hi = brange(cb, st.cons)
        fl, cl = k >> z, -(-k >> z)
        if pred in ('eq', 'ne') and fl != cl:
            return pred == 'ne'
        if pred == 'eq':
            lo, hi = max(lo, fl), min(hi, fl)
        elif pred == 'ne':
            if fl == lo:
                lo += 1
            if fl == hi:
                hi -= 1
        elif pred[1:] == 'lt':
            hi = min(hi, cl - 1)
        elif pred[1:] == 'le':
            hi = min(hi, fl)
        elif pred[1:] == 'gt':
            lo = max(lo, fl + 1)
        elif pred[1:] == 'ge':
            lo = max(lo, cl)
        if lo > hi:
            return False
        st.cons[cb] = (lo, hi)
        return True

    # ---------------------------------------------------------- memory
    def load(self, st, p, size, ty):
        if not isinstance(p, P):
            return TOP
        o, off = p
        sym = self.load_obj(st, o, off, size)
        if sym is not None:
            return sym
        m = st.mem.get(o)
        if m is None:
            if o[0] == '@':
                return self.gload(o[1:], off, size, ty)
            return TOP
        c = m.get(off if not isinstance(off, S) else off)
        if c is not None and c[0] == size:
            return c[1]
        if ty.k == 'ptr':
            return TOP
        r = []
        for k in range(size):
            r += self.byte(m, self.add(off, k, 64) if off is not TOP else TOP)
        return simp(B(r))

    def byte(self, m, off):
        if off is TOP:
            return (-1,) * 8
        for d in range(0, 8):
            o = self.add(off, -d, 64)
            c = m.get(o)
            if c is not None:
                if c[0] > d:
                    v = c[1]
                    if isinstance(v, (int, B)):
                        return tuple(as_bits(v, 8 * c[0]))[8 * d:8 * d + 8]
                    return (-1,) * 8
                return (-1,) * 8
        return (-1,) * 8

    def store(self, st, p, size, v):
        if not isinstance(p, P):
            raise Stop('store through an unknown pointer')
        o, off = p
        m = st.mem.get(o)
        if m is None:
            if o[0] == '@':
                raise Stop('store to a global')
            m = st.mem[o] = {}
        if off is TOP or isinstance(off, B) or isinstance(off, S) and off.bits is not None:
            raise Stop('store at an unknown offset')
        c = m.get(off)
        if c is None or c[0] != size:
            # overlapping cells are split into bytes
            for d in range(-7, size):
                q = self.add(off, d, 64)
                c = m.get(q)
                if c is None or c[0] == 1 and 0 <= d < size or d < 0 and c[0] <= -d:
                    continue
                if d == 0 and c[0] == size:
                    continue
                cs, cv = m.pop(q)
                if isinstance(cv, (int, B)):
                    bb = tuple(as_bits(cv, 8 * cs))
                    for j in range(cs):
                        m[self.add(q, j, 64)] = (1, simp(B(bb[8 * j:8 * j + 8])))
            for d in range(1, size):
                m.pop(self.add(off, d, 64), None)
        m[off] = (size, v)
        self.stored(st, o, off, size)

    def stored(self, st, o, off, size):
        pass

    def load_obj(self, st, o, off, size):
        return None

    def gload(self, name, off, size, ty):
        g = self.gvars.get(name)
        if g is None or g.decl or g.init is None:
            return TOP if ty.k != 'int' else B((-1,) * ty.w)
        if not isinstance(off, int):
            return self.table(name, g, off, size) if ty.k == 'int' and g.const else B((-1,) * (8 * size)) if ty.k == 'int' else TOP
        v = self.ginit(g.init, off, size)
        if v is None:
            return B((-1,) * (8 * size)) if ty.k == 'int' else TOP
        return v

    def table(self, name, g, off, size):
        """an entry of a constant table selected by symbolic bits: affine tables give GF(2) sums"""
        top = B((-1,) * (8 * size))
        s = toS(off) if off is not TOP else None
        if s is None or any(s.q) or s.bits is None:
            return top
        add, z, cb = core(s.bits)
        if len(cb) > 12 or any(x == 0 for x in cb) or (1 << z) % size:
            return top
        k = (name, s.c + add, z, len(cb), size)
        t = self.tables.get(k)
        if t is None:
            v = [self.ginit(g.init, s.c + add + (i << z), size) for i in range(1 << len(cb))]
            if not all(isinstance(x, int) for x in v):
                t = (None, None, None)
            else:
                bad = None
                for i in range(len(v)):
                    e = v[0]
                    for j in range(len(cb)):
                        if i >> j & 1:
                            e ^= v[1 << j] ^ v[0]
                    if e != v[i]:
                        bad = i
                        break
                t = (v, bad, None)
            self.tables[k] = t
        v, bad, _ = t
        if v is None:
            return top
        if bad is not None:
            self.nonaffine[k] = bad
            return B(key(('tab', k, cb, j)) for j in range(8 * size))
        r = []
        for j in range(8 * size):
            b = v[0] >> j & 1
            for i, x in enumerate(cb):
                if (v[1 << i] ^ v[0]) >> j & 1:
                    b = xor(b, x)
            r.append(b)
        return simp(B(r))

    def ginit(self, v, off, size):
        ty = v.ty
        if off < 0 or off + size > ty.size:
            return None
        if v.k == 'zero':
            return 0
        if v.k == 'cint' and off == 0 and size == ty.size:
            return v.v
        if v.k == 'agg':
            if ty.k == 'array':
                k = off // ty.elem.size
                if off + size > (k + 1) * ty.elem.size:
                    a = [self.ginit(v, off + j, 1) for j in range(size)]
                    return None if None in a else sum(x << (8 * j) for j, x in enumerate(a))
                return self.ginit(v.v[k], off - k * ty.elem.size, size)
            if ty.k == 'struct':
                for k, o in enumerate(ty.offs):
                    if o <= off and off + size <= o + ty.fields[k].size:
                        return self.ginit(v.v[k], off - o, size)
        if v.k == 'cint' and size < ty.size:
            return (v.v >> (8 * off)) & ((1 << (8 * size)) - 1)
        if v.k in ('null',):
            return 0
        if v.k == 'func':
            return FN(v.v)
        if v.k == 'gvar':
            return P('@' + v.v, 0)
        return None

    # ---------------------------------------------------------- execution of the transfer functions
    def walk(self, st, on_header, on_ret):
        """follow all paths of the current frame stack until the iteration boundary or the outermost return"""
        todo = [st]
        seen = set()
        while todo:
            st = todo.pop()
            try:
                self.path(st, todo, seen, on_header, on_ret)
            except Dead:
                pass
            except Stop as e:
                self.stopped(st, str(e))

    def stopped(self, st, why):
        raise Limit(why)

    def where(self, st):
        fr = st.frames[-1]
        return fr.blk.insts[min(fr.i, len(fr.blk.insts) - 1)]

    def sig(self, st):
        fr = tuple((f.fn.name, f.blk.id, f.i, f.pred.id if f.pred is not None and f is st.frames[-1] else None,
                    frozenset((k, v) for k, v in f.env.items() if v is not TOP and (k in self.live(f) or not isinstance(k, int)))) for f in st.frames)
        return (fr, frozenset((o, frozenset(m.items())) for o, m in st.mem.items()), frozenset(st.cons.items()), st.eqs, st.imp)

    def live(self, f):
        irload.analyse_cfg(f.fn)
        return f.fn.live[f.blk.id] | {i.id for i in f.blk.insts[:f.blk.nphi]}

    def path(self, st, todo, seen, on_header, on_ret):
        forked = bool(todo) or bool(seen)
        while True:
            fr = st.frames[-1]
            ins = fr.blk.insts[fr.i]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Limit('step limit')
            op = ins.op
            self.cur = ins
            if op == 'br':
                if not ins.ops:
                    t = ins.succ[0]
                else:
                    c = self.val(ins.ops[0], fr)
                    if isinstance(c, int):
                        t = ins.succ[0] if c & 1 else ins.succ[1]
                    else:
                        c = self.truth(st, c, fr, ins.ops[0], todo)
                        t = ins.succ[0] if c else ins.succ[1]
                if self.goto(st, fr, t, seen, on_header):
                    return
                continue
            if op == 'switch':
                c = self.val(ins.ops[0], fr)
                if isinstance(c, int):
                    t = dict(ins.x[0]).get(c, ins.x[1])
                    if self.goto(st, fr, t, seen, on_header):
                        return
                    continue
                w = ins.ops[0].ty.w
                for k, s in ins.x[0]:
                    cm = CMP('eq', c, k)
                    if self.decide(st, cm) is False:
                        continue
                    o = st.copy()
                    if self.assume(o, cm, True):
                        o.ev = o.ev + (('sw', c, k),)
                        todo.append(o)
                        of = o.frames[-1]
                        self.setblk(of, s)
                o = st
                ok = True
                for k, s in ins.x[0]:
                    if self.decide(o, CMP('ne', c, k)) is False or not self.assume(o, CMP('eq', c, k), False):
                        ok = False
                if not ok:
                    return
                o.ev = o.ev + (('sw', c, None),)
                if self.goto(o, fr, ins.x[1], seen, on_header):
                    return
                continue
            if op == 'ret':
                v = self.val(ins.ops[0], fr) if ins.ops else None
                st.frames.pop()
                if not st.frames:
                    on_ret(st, v, ins)
                    return
                self.drop_locals(st, len(st.frames))
                self.ret_to(st, fr.call, v)
                continue
            if op in ('unreachable', 'resume'):
                return
            if op in ('call', 'invoke'):
                if self.call(st, fr, ins, todo) == 'end':
                    return
                continue
            v = self.inst(st, fr, ins, todo)
            if v is _REDO:
                continue
            if v is not None:
                fr.env[ins.id] = v
            fr.i += 1

    def ret_to(self, st, call, v):
        fr = st.frames[-1]
        if v is not None:
            fr.env[call.id] = v
        if call.op == 'invoke':
            self.setblk(fr, call.x['normal'])
        else:
            fr.i += 1

    def drop_locals(self, st, depth):
        for o in [o for o in st.mem if isinstance(o, str) and o.startswith('%%%d:' % depth)]:
            del st.mem[o]

    def setblk(self, fr, t):
        pred = fr.blk
        new = []
        for i in t.insts[:t.nphi]:
            new.append((i.id, self.val(i.ops[i.x.index(pred)], fr)))
        for k, v in new:
            fr.env[k] = v
        fr.pred, fr.blk, fr.i = pred, t, t.nphi

    def goto(self, st, fr, t, seen, on_header):
        back = fr.blk
        self.setblk(fr, t)
        fr.pred = None
        if self.header is None:
            irload.analyse_cfg(fr.fn)
            if t.id in fr.fn.loops and self.header_ok(fr, t):
                self.header = (len(st.frames), fr.fn.name, t.id)
        if self.header == (len(st.frames), fr.fn.name, t.id):
            irload.analyse_cfg(fr.fn)
            lv = fr.fn.live[t.id] | {i.id for i in t.insts[:t.nphi]}
            for k in [k for k in fr.env if isinstance(k, int) and k not in lv]:
                del fr.env[k]
            on_header(st)
            return True
        if len(t.pred) > 1:
            if st.ev:
                s = self.sig(st)
                if s in seen:
                    return True
                seen.add(s)
        return False

    def header_ok(self, fr, t):
        return True

    def truth(self, st, c, fr, o, todo):
        """fork on a condition value; the value is bound on both sides"""
        if not isinstance(c, CMP):
            c = CMP('ne', c if isinstance(c, B) else B((-1,)), 0)
        r = self.decide(st, c)
        if r is not None:
            if o.k == 'inst':
                fr.env[o.v.id] = int(r)
            return r
        n = st.copy()
        if self.assume(n, c, False):
            n.ev = n.ev + (('b', False),)
            if o.k == 'inst':
                n.frames[-1].env[o.v.id] = 0
            todo.append(n)
        st.ev = st.ev + (('b', True),)
        if not self.assume(st, c, True):
            raise Dead()
        if o.k == 'inst':
            fr.env[o.v.id] = 1
        return True

    def inst(self, st, fr, ins, todo):
        op = ins.op
        if op == 'load':
            p = self.val(ins.ops[0], fr)
            t = ins.ty
            v = self.load(st, p, t.store or t.size, t)
            if t.k == 'int':
                if v is TOP:
                    return B((-1,) * t.w)
                if isinstance(v, int):
                    return v & ((1 << t.w) - 1)
                if isinstance(v, B) and len(v) != t.w:
                    return B(tuple(v)[:t.w]) if len(v) > t.w else B((-1,) * t.w)
            return v
        if op == 'store':
            p = self.val(ins.ops[1], fr)
            v = self.val(ins.ops[0], fr)
            t = ins.ops[0].ty
            if isinstance(v, B) and len(v) % 8:
                v = simp(B(tuple(v) + (0,) * (8 - len(v) % 8)))
            if isinstance(v, CMP):
                self.truth(st, v, fr, ins.ops[0], todo)
                return _REDO
            self.store(st, p, t.store or t.size, v)
            return None
        if op == 'alloca':
            o = '%%%d:%s:%d' % (len(st.frames) - 1, ins.fn.name[:30], ins.id)
            st.mem[o] = {}
            return P(o, 0)
        if op == 'getelementptr':
            return self.gep(ins.x, [self.val(o, fr) for o in ins.ops], ins.ops)
        if op == 'icmp':
            a, b = self.val(ins.ops[0], fr), self.val(ins.ops[1], fr)
            if isinstance(a, CMP) or isinstance(b, CMP):
                k = 0 if isinstance(a, CMP) else 1
                self.truth(st, a if k == 0 else b, fr, ins.ops[k], todo)
                return _REDO
            if isinstance(a, int) and isinstance(b, int):
                w = ins.ops[0].ty.w or 64
                x, y = (sgn(a, w), sgn(b, w)) if ins.x[0] == 's' else (a, b)
                return int({'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[ins.x if ins.x in ('eq', 'ne') else ins.x[1:]])
            if ins.x[0] == 's':
                w = ins.ops[0].ty.w
                a = sgn(a, w) if isinstance(a, int) else a
                b = sgn(b, w) if isinstance(b, int) else b
                for z in (a, b):
                    if isinstance(z, B) and z[-1] != 0:
                        return CMP('ne', B((-1,)), 0)
            c = CMP(ins.x, a, b)
            r = self.decide(st, c)
            if r is not None:
                return int(r)
            return c
        if op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            v = self.val(ins.ops[0], fr)
            if isinstance(v, CMP):
                if op == 'freeze':
                    return v
                self.truth(st, v, fr, ins.ops[0], todo)
                return _REDO
            if op in ('freeze', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return v
            w, ow = ins.ty.w, ins.ops[0].ty.w
            if isinstance(v, int):
                return v & ((1 << w) - 1) if op != 'sext' else sgn(v, ow) & ((1 << w) - 1)
            if isinstance(v, B):
                if op == 'trunc':
                    return simp(B(tuple(v)[:w]))
                return simp(B(tuple(v) + ((0 if op == 'zext' else v[-1]),) * (w - ow)))
            if isinstance(v, S):
                lo, hi = srange(v, st.cons)
                if op == 'trunc' and (lo < 0 or hi >= 1 << w):
                    return B((-1,) * w)
                if op == 'sext' and hi >= 1 << (ow - 1):
                    return B((-1,) * w)
                return v
            if isinstance(v, P) and op == 'trunc' and isinstance(v.off, int):
                # objects are aligned to 64 bytes
                return simp(B(tuple(bits_of_int(v.off & 63, 6)) + (-1,) * (w - 6))) if w > 6 else v.off & ((1 << w) - 1)
            return B((-1,) * w)
        if op == 'select':
            c = self.val(ins.ops[0], fr)
            if not isinstance(c, int):
                self.truth(st, c, fr, ins.ops[0], todo)
                return _REDO
            return self.val(ins.ops[1] if c & 1 else ins.ops[2], fr)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = self.val(ins.ops[0], fr), self.val(ins.ops[1], fr)
            for k, x in ((0, a), (1, b)):
                if isinstance(x, CMP):
                    self.truth(st, x, fr, ins.ops[k], todo)
                    return _REDO
            if op == 'sub' and isinstance(a, P) and isinstance(b, P):
                return self.fin(self.sub(a, b, ins.ty.w), ins.ty.w)
            return self.binop(ins, a, b)
        if op == 'extractvalue' or op == 'insertvalue':
            return TOP
        if op in ('fence',):
            return None
        return TOP if ins.ty.k != 'int' else B((-1,) * ins.ty.w)

    def call(self, st, fr, ins, todo):
        cv = ins.x['callee']
        name = cv.v if cv.k == 'func' else None
        if name is None and cv.k == 'inst':
            v = fr.env.get(cv.v.id)
            if isinstance(v, FN):
                name = v.name
        a = [self.val(o, fr) for o in ins.ops]
        for k, x in enumerate(a):
            if isinstance(x, CMP):
                self.truth(st, x, fr, ins.ops[k], todo)
                return None
        if cv.k == 'asm' and len(a) == 1 and (re.fullmatch(r'bswap[lq]? \$0', str(cv.v)) or re.fullmatch(r'xchgb \$\{0:b\},\s*\$\{0:h\}', str(cv.v))):
            # the two byte swaps of src/common/endianness.h
            self.ret_to(st, ins, self.bswap(a[0], ins.ty.w))
            return None
        if name is None:
            raise Stop('indirect call %s %s' % (cv.k, cv.v))
        r = self.external(st, ins, name, a)
        if r is not NotImplemented:
            if r == 'end':
                return 'end'
            self.ret_to(st, ins, r)
            return None
        f = self.funcs.get(name)
        if f is not None and not f.decl:
            if len(st.frames) > 40:
                raise Limit('recursion')
            n = Frame(f, ins)
            for k, x in enumerate(a):
                n.env[('a', k)] = x
            st.frames.append(n)
            return None
        raise Stop('call of %s' % name)

    def bswap(self, v, w):
        if isinstance(v, int):
            return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
        x = tuple(as_bits(v, w))
        r = ()
        for k in range(w // 8):
            r = x[8 * k:8 * k + 8] + r
        return simp(B(r))

    def external(self, st, ins, name, a):
        if name.startswith('llvm.'):
            b = name.split('.')[1]
            if b in ('dbg', 'lifetime', 'assume', 'experimental', 'donothing', 'prefetch'):
                return None
            if b == 'expect':
                return a[0]
            if b == 'bswap':
                return self.bswap(a[0], ins.ty.w)
            if b in ('memcpy', 'memmove', 'memset'):
                return self.memop(st, ins, b, a)
            if b in ('umin', 'umax', 'smin', 'smax'):
                w = ins.ty.w
                x, y = a
                if isinstance(x, int) and isinstance(y, int):
                    f = (lambda z: sgn(z, w)) if b[0] == 's' else (lambda z: z)
                    return (min if b.endswith('min') else max)(x, y, key=f)
                r = self.decide(st, CMP('ule' if b[0] == 'u' else 'sle', x, y))
                if r is None:
                    return B((-1,) * w)
                return (x if r else y) if b.endswith('min') else (y if r else x)
            if b in ('trap',):
                return 'end'
            if b == 'stacksave':
                return TOP
            if b == 'stackrestore':
                return None
            raise Stop('intrinsic %s' % name)
        if name in ('memcpy', 'memmove', 'memset'):
            self.memop(st, ins, name, a)
            return a[0]
        if name in ('fprintf', 'printf', 'puts', 'fputs', 'fputc', 'putchar', 'fflush', 'fwrite', 'perror', '__fprintf_chk', '__printf_chk'):
            return B((-1,) * (ins.ty.w or 32)) if ins.ty.k != 'void' else None
        if name in ('abort', '__assert_fail', 'exit', '_exit', '__assert', '__cxa_throw', '_ZSt9terminatev'):
            return 'end'
        return NotImplemented

    def memop(self, st, ins, b, a):
        n = a[2]
        if not isinstance(n, int):
            raise Stop('%s of unknown length' % b)
        if n > 4096:
            raise Stop('%s of %d bytes' % (b, n))
        d = a[0]
        if not isinstance(d, P):
            if n == 0:
                return None
            raise Stop('%s to an unknown address' % b)
        if b == 'memset':
            for k in range(n):
                v = a[1]
                self.store(st, P(d.obj, self.add(d.off, k, 64)), 1, v & 255 if isinstance(v, int) else simp(B(tuple(as_bits(v, 8))[:8])))
            return None
        s = a[1]
        vals = self.copy_bytes(st, ins, s, n)
        if n in (1, 2, 4, 8) and isinstance(vals, tuple) is False:
            pass
        for k in range(n):
            self.store(st, P(d.obj, self.add(d.off, k, 64)), 1, vals[k])
        return None

    def copy_bytes(self, st, ins, s, n):
        if not isinstance(s, P):
            return [B((-1,) * 8)] * n
        r = []

        class T8:
            k = 'int'
            w = 8
        for k in range(n):
            v = self.load(st, P(s.obj, self.add(s.off, k, 64)), 1, T8)
            r.append(v if isinstance(v, (int, B)) else B((-1,) * 8))
        return r


class Dead(Exception):
    pass


_REDO = object()
