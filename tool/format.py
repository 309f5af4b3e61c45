"""Decoder conformance to the 842 format (P15) and CRC enforcement (P06), by bit-provenance dataflow over the decoders' IR.

The format is the table below (from the description of the 842 format, not from the code).  The decoders are analysed one template at a time
from every loop-header state that template sequences can reach: positions in input and output are symbolic, stream bits are tokens, and each
output byte must be made of exactly the tokens the format prescribes.
"""
import math, re
from fractions import Fraction
import bitflow
from bitflow import B, P, S, CMP, FN, TOP, Q, Q0, KEYS, key, simp, toS, mkS, as_bits, brange, Limit, sym
import build, irq

TEMPLATES = {
    0x00: 'D8', 0x01: 'D4 D2 I2', 0x02: 'D4 I2 D2', 0x03: 'D4 I2 I2', 0x04: 'D4 I4', 0x05: 'D2 I2 D4', 0x06: 'D2 I2 D2 I2', 0x07: 'D2 I2 I2 D2',
    0x08: 'D2 I2 I2 I2', 0x09: 'D2 I2 I4', 0x0a: 'I2 D2 D4', 0x0b: 'I2 D4 I2', 0x0c: 'I2 D2 I2 D2', 0x0d: 'I2 D2 I2 I2', 0x0e: 'I2 D2 I4',
    0x0f: 'I2 I2 D4', 0x10: 'I2 I2 D2 I2', 0x11: 'I2 I2 I2 D2', 0x12: 'I2 I2 I2 I2', 0x13: 'I2 I2 I4', 0x14: 'I4 D4', 0x15: 'I4 D2 I2',
    0x16: 'I4 I2 D2', 0x17: 'I4 I2 I2', 0x18: 'I4 I4', 0x19: 'I8'}
IBITS = {2: 8, 4: 9, 8: 8}
FIFO = {2: 512, 4: 2048, 8: 2048}
OPB, REPEAT, ZEROS, SHORT, END, REPB, SHORTB, CRCB = 5, 0x1b, 0x1c, 0x1d, 0x1e, 6, 3, 32
R0 = 1024                                  # output position = T + R0 in the normal form


class Inconclusive(Exception):
    pass


class Dec(bitflow.Flow):
    def __init__(self, funcs, gv, entry):
        super().__init__(funcs, gv, steps=0)
        self.entry = entry
        self.consts = {}
        self.deep = False
        self.crc = {}
        self.wloc = {}
        self.budget = 0
        self.rbw = set()         # memory cells whose value at the loop header is used

    def load_obj(self, st, o, off, size):
        if o == 'in':
            s = toS(off) if off is not TOP else None
            if s is None or s.bits is not None or s.q != (QI if self.deep else Q0) or s.c.denominator != 1:
                return B((-1,) * (8 * size))
            r = []
            for k in range(size):
                for j in range(8):
                    x = 8 * (s.c + k) + 7 - j
                    c = self.consts.get(x)
                    r.append(key(('s', x)) if c is None else c)
            return simp(B(r))
        if o == 'out':
            if off is TOP or off is None:
                return B((-1,) * (8 * size))
            s = canon(off)
            if s is None:
                return B((-1,) * (8 * size))
            m = st.mem['out']
            r = []
            for k in range(size):
                f = None
                if s.bits is None:
                    for d in range(8):
                        c = m.get(mkS(s.q, s.c + k - d, None))
                        if c is not None and c[0] > d:
                            v = c[1]
                            f = tuple(as_bits(v, 8 * c[0]))[8 * d:8 * d + 8] if isinstance(v, (int, B)) else (-1,) * 8
                            break
                if f is None:
                    x = mkS(s.q, s.c + k, s.bits)
                    f = tuple(key(('o', x, j)) for j in range(8))
                r += f
            return simp(B(r))
        return None

    def external(self, st, ins, name, a):
        if re.search('crc', name, re.I) and self.funcs.get(name) is not None and any(isinstance(x, P) and x.obj == 'out' for x in a):
            w = ins.ty.w
            if w:
                i = tuple(a)
                self.crc[i] = ins
                return B(key(('crc', i, k)) for k in range(w))
        return super().external(st, ins, name, a)

    def stored(self, st, o, off, size):
        if o == 'out':
            self.wloc[off] = self.cur

    def load(self, st, p, size, ty):
        if isinstance(p, P) and p.off is not TOP:
            m = st.mem.get(p.obj)
            if m is not None and p.obj != 'out':
                for d in range(-7, size):
                    a = self.add(p.off, d, 64)
                    c = m.get(a)
                    if c is not None and len(c) == 3 and (d >= 0 or c[0] > -d):
                        self.rbw.add((p.obj, a))
        return super().load(st, p, size, ty)

    def stopped(self, st, why):
        raise Inconclusive('%s (at %s)' % (why, self.where(st).line if self.where(st) else '?'))

    def start(self, deep):
        f = self.funcs.get(self.entry)
        if f is None or f.decl:
            raise Inconclusive('%s is not defined' % self.entry)
        st = bitflow.State()
        fr = bitflow.Frame(f)
        if len(f.args) != 4:
            raise Inconclusive('%s does not have four parameters' % self.entry)
        for k, v in enumerate((P('in', 0), S(sym('N'), 0, None), P('out', 0), P('olen', 0))):
            fr.env[('a', k)] = v
        st.frames.append(fr)
        st.mem['out'] = {}
        st.mem['olen'] = {0: (8, S(sym('M'), 0, None))}
        return st

    def go(self, st, consts, deep, budget=60000):
        """-> [('hdr', state)] + [('ret', state, value, inst)]"""
        self.consts, self.deep = consts, deep
        self.steps, self.max_steps = 0, budget
        self.wloc = {}
        self.crc = {}
        out = []
        st.ev, st.cons, st.eqs, st.imp = (), {}, (), ''
        self.walk(st, lambda s: out.append(('hdr', s)), lambda s, v, i: out.append(('ret', s, v, i)))
        return out


QI = sym('I')


def canon(off):
    s = toS(off)
    if s is None:
        return None
    if s.bits is not None and 1 in s.bits:
        c = s.c + sum(1 << i for i, b in enumerate(s.bits) if b == 1)
        s = toS(mkS(s.q, c, tuple(0 if b == 1 else b for b in s.bits)))
    return s


# ------------------------------------------------------------------ mapping whole states
def mapval(v, fk, fl):
    """fk: key id -> bit, fl: S -> value without its bits"""
    if isinstance(v, int) or v is TOP or isinstance(v, FN):
        return v
    if isinstance(v, B):
        return simp(B(fk(x) if x > 1 else x for x in v))
    if isinstance(v, S):
        r = fl(v.q, v.c)
        if v.bits is None:
            return r
        b = tuple(fk(x) if x > 1 else x for x in v.bits)
        if -1 in b:
            return TOP
        r = toS(r)
        return mkS(r.q, r.c, b)
    if isinstance(v, P):
        return P(v.obj, v.off if v.off is TOP else mapval(v.off, fk, fl))
    if isinstance(v, CMP):
        return CMP(v.pred, mapval(v.a, fk, fl), mapval(v.b, fk, fl))
    return TOP


def mapstate(st, fk, fl):
    n = st.copy()
    for f in n.frames:
        f.env = {k: mapval(v, fk, fl) for k, v in f.env.items()}
    n.mem = {o: {mapval(a, fk, fl) if isinstance(a, S) else a: (c[0], mapval(c[1], fk, fl), 1) for a, c in m.items()} for o, m in n.mem.items() if o != 'out'}
    n.mem['out'] = {mapval(a, fk, fl) if isinstance(a, S) else a: c for a, c in st.mem['out'].items()}
    return n


def linsub(**sub):
    """substitution of symbols: name -> (Q, constant)"""
    def f(q, c):
        r, k = Q0, c
        for i, a in enumerate(q):
            if not a:
                continue
            s = sub.get(bitflow.SYMS[i])
            if s is None:
                r = r + Q(a if j == i else 0 for j in range(len(q)))
            else:
                r, k = r + s[0].times(a), k + a * s[1]
        k = Fraction(k)
        return mkS(r, int(k) if k.denominator == 1 else k, None)
    return f


def ident(x):
    return x


def keyshift(bits):
    memo = {}

    def f(x):
        r = memo.get(x)
        if r is None:
            k = KEYS[x]
            r = memo[x] = key(('s', k[1] - bits)) if k[0] == 's' else -1
        return r
    return f


def keyconst(consts):
    memo = {}

    def f(x):
        r = memo.get(x)
        if r is None:
            k = KEYS[x]
            r = memo[x] = consts.get(k[1], x) if k[0] == 's' else x
        return r
    return f


def hist(st, sym_=True):
    """eight unknown previous output bytes"""
    q = sym('T') if sym_ is True else Q0
    base = R0 if sym_ is True else sym_
    st.mem['out'] = {mkS(q, base - 8 + j, None): (1, B(key(('h', j, b)) for b in range(8))) for j in range(8) if sym_ is True or base >= 8}


def nkey(st, live):
    return (tuple((f.fn.name, f.blk.id, f.i, frozenset((k, v) for k, v in f.env.items() if v is not TOP and not (isinstance(v, B) and set(v) == {-1})))
                  for f in st.frames),
            frozenset((o, frozenset((a, c[:2]) for a, c in m.items() if (o, a) in live and c[1] is not TOP and not (isinstance(c[1], B) and set(c[1]) == {-1})))
                      for o, m in st.mem.items() if o != 'out'))


class Lift:
    """normal form from two states that differ by whole multiples of in/out progress"""
    A = [Fraction(x) for x in (0, 1, -1, 8, -8)] + [Fraction(1, 8), Fraction(-1, 8), Fraction(1, 4), Fraction(-1, 4)]

    def __init__(self, di, dt, in1, out1):
        self.di, self.dt, self.in1, self.out1 = di, dt, in1, out1
        self.ks1, self.ks2 = keyshift(8 * in1), keyshift(8 * (in1 + di))

    def num(self, x, y):
        d = y - x
        if d == 0:
            return Q0, x
        for a in self.A:
            for b in self.A:
                if a * self.di + b * self.dt == d:
                    c = x - a * self.in1 - b * (self.out1 - R0)
                    return Q(a if s == 'I' else b if s == 'T' else 0 for s in bitflow.SYMS), int(c) if c == int(c) else c
        raise Inconclusive('a loop-carried value changes by %s over 64 templates' % d)

    def val(self, x, y):
        if x is TOP or y is TOP:
            return TOP
        if type(x) is not type(y):
            if isinstance(x, (int, S, B)) and isinstance(y, (int, S, B)):
                if isinstance(x, B) and -1 in x or isinstance(y, B) and -1 in y:
                    return TOP
            raise Inconclusive('a loop-carried value changes its kind')
        if isinstance(x, int):
            q, c = self.num(x, y)
            return mkS(q, c, None)
        if isinstance(x, FN):
            return x if x == y else TOP
        if isinstance(x, B):
            x, y = simp(B(self.ks1(i) if i > 1 else i for i in x)), simp(B(self.ks2(i) if i > 1 else i for i in y))
            if x == y:
                return x
            raise Inconclusive('loop-carried bits are not translation invariant')
        if isinstance(x, S):
            if x.q != y.q:
                raise Inconclusive('loop-carried value')
            q, c = self.num(x.c, y.c)
            bx, by = [None if z.bits is None else tuple(f(i) if i > 1 else i for i in z.bits) for z, f in ((x, self.ks1), (y, self.ks2))]
            if bx != by:
                raise Inconclusive('loop-carried bits are not translation invariant')
            return mkS(x.q + q, c, bx)
        if isinstance(x, P):
            if x.obj != y.obj:
                raise Inconclusive('a loop-carried pointer changes its object')
            return P(x.obj, self.val(x.off, y.off))
        if isinstance(x, CMP):
            return TOP
        return TOP

    def state(self, s1, s2):
        n = s1.copy()
        for f, g, h in zip(n.frames, s1.frames, s2.frames):
            if (g.fn.name, g.blk.id) != (h.fn.name, h.blk.id):
                raise Inconclusive('frames differ')
            f.env = {k: self.val(v, h.env[k]) for k, v in g.env.items() if k in h.env}
        n.mem = {}
        for o, m in s1.mem.items():
            if o == 'out' or o not in s2.mem:
                continue
            n.mem[o] = {a: (c[0], self.val(c[1], s2.mem[o][a][1])) for a, c in m.items() if a in s2.mem[o] and s2.mem[o][a][0] == c[0]}
        hist(n)
        return n


# ------------------------------------------------------------------ the format
def variants(full, which='P15'):
    for op in range(32):
        if which == 'P06' and op not in (0, ZEROS, END):
            continue
        if op == REPEAT:
            for c in (range(64) if full else (1, 32)):
                yield op, c
        elif op == SHORT:
            for c in (range(8) if full else (0, 3, 6)):
                yield op, c
        else:
            yield op, None


def spec(op, arg):
    """-> (bits consumed after the opcode, items or None when invalid); item ('d', nbytes, bit) | ('i', size, bit, nbits) | ('h', n) | ('z', n)"""
    if op in TEMPLATES:
        b, items = 0, []
        for t in TEMPLATES[op].split():
            n = int(t[1])
            if t[0] == 'D':
                items.append(('d', n, b))
                b += 8 * n
            else:
                items.append(('i', n, b, IBITS[n]))
                b += IBITS[n]
        return b, items
    if op == REPEAT:
        return REPB, [('h', 8 * (arg + 1))]
    if op == ZEROS:
        return 0, [('z', 8)]
    if op == SHORT:
        return SHORTB + 8 * arg, [('d', arg, SHORTB)] if arg else None
    if op == END:
        return CRCB, []
    return 0, None


def bits_at(pos, n, value):
    return {pos + i: (value >> (n - 1 - i)) & 1 for i in range(n)}


def opconsts(pos, op, arg):
    c = bits_at(pos, OPB, op)
    if op == REPEAT:
        c.update(bits_at(pos + OPB, REPB, arg))
    if op == SHORT:
        c.update(bits_at(pos + OPB, SHORTB, arg))
    return c


def opname(op, arg):
    if op in TEMPLATES:
        return 'template 0x%02x (%s)' % (op, TEMPLATES[op])
    return {REPEAT: 'REPEAT with count field %s' % arg, ZEROS: 'ZEROS', SHORT: 'SHORT_DATA of %s bytes' % arg, END: 'END'}.get(op, 'invalid opcode 0x%02x' % op)


class Checker:
    def __init__(self, rep, funcs, gv, entry, unit, short_ok, which):
        self.rep, self.entry, self.unit, self.short_ok, self.which = rep, entry, unit, short_ok, which
        self.d = Dec(funcs, gv, entry)
        self.n = {'iterations': 0, 'paths': 0, 'bytes': 0, 'imprecise': 0}
        self.bad = 0
        self.why = {}

    def vague(self, why):
        self.n['imprecise'] += 1
        self.why[why] = self.why.get(why, 0) + 1

    def viol(self, ins, msg):
        self.bad += 1
        self.rep.violation(ins, msg, key='%s: %s' % (self.entry, msg))

    # -- one template from one header state
    def iterate(self, st, pos, T, op, arg, tight, deep=True):
        """T: None (symbolic T+R0) or a concrete output position.  Returns the continuing states"""
        d = self.d
        use, items = spec(op, arg)
        consts = opconsts(pos, op, arg)
        n = sum(8 if False else (i[1] if i[0] in 'dihz' else 0) for i in items) if items else 0
        need = -(-(pos + OPB + use) // 8)
        need = -(-need // self.unit) * self.unit
        sub = {}
        if tight:
            if T is None:
                sub['M'] = (sym('T'), R0 + n)
            else:
                sub['M'] = (Q0, T + n)
            sub['N'] = (QI if deep else Q0, need)
        short = isinstance(tight, tuple)
        if short:
            what, k = tight
            if what == 'in':
                sub['N'] = (sub['N'][0], sub['N'][1] - k)
            else:
                sub['M'] = (sub['M'][0], sub['M'][1] - k)
        st = mapstate(st, keyconst(consts), linsub(**sub))
        self.n['iterations'] += 1
        res = d.go(st, consts, deep)
        what = opname(op, arg)
        ctx = '%s at stream bit %s%d' % (what, '8*I+' if deep else '', pos) + ('' if T is None else ', output position %d' % T) + \
              (', with %d bytes of %s missing' % (tight[1], 'input' if tight[0] == 'in' else 'output space') if short else
               ', with exactly enough input and output space' if tight else '')
        nxt = []
        valid = items is not None
        if op == REPEAT and T is not None and T < 8:
            valid = False
        for r in res:
            s = r[1]
            self.n['paths'] += 1
            if not self.feasible(s):
                self.vague('a branch condition outside the domain: ' + (irq.loc(s.imp) if s.imp else 'overlapping'))
                continue
            if short:
                self.refused(r, op, ctx, pos + OPB + use, deep)
                continue
            if op == END:
                self.end(r, pos, T, ctx, tight)
                continue
            if r[0] == 'ret':
                v = r[2]
                if not isinstance(v, int):
                    self.vague('unknown return value')
                    continue
                if v == 0:
                    if self.which == 'P15':
                        self.viol(r[3], '%s ends decoding with success' % ctx)
                    continue
                if not valid or (op == SHORT and not self.short_ok):
                    continue
                if any(i[0] == 'i' for i in items) and self.invalid_index(s, pos, T, items):
                    continue
                if self.which == 'P15':
                    self.viol(r[3], '%s: a valid stream is rejected (returns %d)' % (ctx, bitflow.sgn(v, 32)))
                continue
            if not valid or self.invalid_index(s, pos, T, items):
                self.refused(r, op, ctx + ': the stream is invalid', pos + OPB + use, deep)
                continue
            if self.which == 'P15' and not self.bytes(s, pos, T, items, ctx):
                continue
            nxt.append((s, pos + OPB + use, n))
        return nxt

    def refused(self, r, op, ctx, pos, deep):
        """the template does not fit: the call must fail, at the latest at the next END"""
        if r[0] == 'hdr':
            if self.which == 'P15' and op != END:
                c = opconsts(pos, END, None)
                for e in self.d.go(mapstate(r[1], keyconst(c), linsub()), c, deep):
                    if not self.feasible(e[1]):
                        self.vague('a branch condition outside the domain')
                    elif e[0] == 'hdr' or e[2] == 0:
                        self.viol(self.line(r[1]), '%s: decoding continues' % ctx)
                        break
        elif not isinstance(r[2], int):
            self.vague('unknown return value')
        elif r[2] == 0 and (self.which == 'P06') == (op == END):
            self.viol(r[3], '%s: success is returned' % ctx)

    def shortages(self, pos, op, arg):
        use, items = spec(op, arg)
        if items is None or op == SHORT and not self.short_ok:
            return
        need = -(-(pos + OPB + use) // 8)
        need = -(-need // self.unit) * self.unit
        k = self.unit
        have = -(-pos // (8 * self.unit)) * self.unit
        while need - k >= have and k <= (need if op == END else self.unit):
            yield 'in', k
            k += self.unit
        n = sum(i[1] for i in items)
        for k in sorted(set((1, n))):
            if 0 < k <= n and op != END:
                yield 'out', k

    def line(self, s):
        fr = s.frames[-1]
        return fr.blk.insts[min(fr.i, len(fr.blk.insts) - 1)]

    def feasible(self, s):
        if s.imp:
            return False
        used = {}
        for v in s.cons:
            for x in v:
                if x > 1:
                    if used.setdefault(x, v) != v:
                        return False
        return True

    def invalid_index(self, s, pos, T, items):
        """the path is taken only for an index that refers to no earlier output"""
        if T is None:
            return False
        for it in items:
            if it[0] == 'i':
                v = self.idx(pos, it)
                lo, hi = brange(v, s.cons)
                if lo + it[1] > T // 8 * 8:
                    return True
        return False

    def idx(self, pos, it):
        size, b, nb = it[1], it[2], it[3]
        return (0,) * (size.bit_length() - 1) + tuple(key(('s', pos + OPB + b + nb - 1 - i)) for i in range(nb))

    def bytes(self, s, pos, T, items, ctx):
        q, t = (sym('T'), R0) if T is None else (Q0, T)
        o = 0
        ok = True
        for it in items:
            for k in range(it[1]):
                off = mkS(q, t + o, None)
                got = self.cell(s, off)
                self.n['bytes'] += 1
                o += 1
                if got is None:
                    self.viol(self.line(s), '%s: output byte %d is not written' % (ctx, o - 1))
                    return False
                if -1 in got:
                    self.vague('output bits of unknown origin')
                    continue
                if it[0] == 'd':
                    want = tuple(key(('s', pos + OPB + it[2] + 8 * k + 7 - j)) for j in range(8))
                    good = got == want
                elif it[0] == 'z':
                    good = got == (0,) * 8
                elif it[0] == 'h':
                    good = got == tuple(key(('h', k % 8, j)) for j in range(8))
                else:
                    good = self.indexed(s, got, pos, T, it, k)
                    if good is None:
                        self.vague('an index copy whose source is not a plain offset')
                        continue
                if not good:
                    self.viol(self.d.wloc.get(off) or self.line(s), '%s: output byte %d must be %s but is %s' % (ctx, o - 1, self.desc(it, k, pos), show(got)))
                    return False
        return ok

    def cell(self, s, off):
        m = s.mem['out']
        for d in range(8):
            c = m.get(self.d.add(off, -d, 64))
            if c is not None and c[0] > d:
                if not isinstance(c[1], (int, B)):
                    return (-1,) * 8
                return tuple(as_bits(c[1], 8 * c[0]))[8 * d:8 * d + 8]
        return None

    def indexed(self, s, got, pos, T, it, k):
        if any(x < 2 for x in got):
            return False
        ks = [KEYS[x] for x in got]
        if any(x[0] != 'o' for x in ks):
            return False
        if any(x[1] != ks[0][1] or x[2] != j for j, x in enumerate(ks)):
            return False
        src = toS(ks[0][1])
        size = it[1]
        want = self.idx(pos, it)
        if src.bits != want:
            if src.bits is None or set(x for x in src.bits if x > 1) == set(x for x in want if x > 1):
                return False if src.bits is None or len(src.bits) == len(want) else None
            return False
        q, t8 = (sym('T'), R0 + self.rshift) if T is None else (Q0, T // 8 * 8)
        if src.q != q:
            return None
        c = src.c - k
        lo, hi = brange(src.bits, s.cons)
        if T is None and (c % FIFO[size]):
            return False
        if T is not None and c % FIFO[size]:
            return False
        return t8 - FIFO[size] <= c + lo and c + hi <= t8 - size

    rshift = 0

    def desc(self, it, k, pos):
        p = pos + OPB
        if it[0] == 'd':
            return 'stream bits %d..%d' % (p + it[2] + 8 * k, p + it[2] + 8 * k + 7)
        if it[0] == 'z':
            return 'zero'
        if it[0] == 'h':
            return 'the byte 8 before it'
        return 'byte %d of the %d-byte reference by the index in stream bits %d..%d into the last %d bytes' % (k, it[1], p + it[2], p + it[2] + it[3] - 1, FIFO[it[1]])

    def end(self, r, pos, T, ctx, tight):
        s = r[1]
        if r[0] == 'hdr':
            if self.which == 'P15':
                self.viol(self.line(s), '%s: decoding continues' % ctx)
            return
        v = r[2]
        if not isinstance(v, int):
            self.vague('unknown return value')
            return
        q, t = (sym('T'), R0) if T is None else (Q0, T)
        want = mkS(q, t, None)
        stream = tuple(key(('s', pos + OPB + CRCB - 1 - i)) for i in range(CRCB))
        eq = [(p, tuple(as_bits(a, 64))[:CRCB], tuple(as_bits(b, 64))[:CRCB]) for p, a, b in s.eqs if isinstance(a, B) and isinstance(b, B)]
        crcs = [(a, p, x) for p, x, y in eq for a, b in ((x, y), (y, x)) if b == stream]
        good = False
        other = [x for p, x, y in eq if stream not in (x, y)]
        for a, p, x in crcs:
            k = [KEYS[i] for i in a if i > 1]
            if len(k) == CRCB and all(z[0] == 'crc' for z in k) and [z[2] for z in k] == list(range(CRCB)) and len(set(z[1] for z in k)) == 1:
                args = k[0][1]
                argok = len(args) == 3 and args[0] == 0 and args[1] == P('out', 0) and args[2] == want
                if p == 'eq':
                    if argok:
                        good = True
                    elif self.which == 'P06' and all(z is not TOP for z in args):
                        self.viol(self.d.crc.get(args), '%s: the checksum that is compared is not crc32_be(0, out, bytes written)' % ctx)
                        return
        if v == 0:
            if self.which == 'P06' and not good:
                self.viol(r[3], '%s: success is returned although the 32 bits after END were not found equal to the CRC of the output' % ctx)
            if self.which == 'P15':
                c = s.mem['olen'].get(0)
                if c is None or c[1] is TOP or isinstance(c[1], B):
                    self.vague('unknown *olen')
                elif c[1] != want:
                    self.viol(r[3], '%s: *olen is not the number of bytes written' % ctx)
            self.ends_ok = True
        else:
            if self.which == 'P06' and not any(p == 'ne' for a, p, x in crcs):
                self.viol(r[3], '%s: a stream whose CRC was not found different is rejected (returns %d)' % (ctx, bitflow.sgn(v, 32)))

    # -- the driver
    def run(self, tier):
        d = self.d
        s0 = self.only(d.go(d.start(False), {}, False), 'before the first template')
        hdr = d.header
        if hdr is None:
            raise Inconclusive('no template loop found')
        self.rep.obligation('%s: template loop at block %s' % (self.entry, hdr))
        # states after 8 and 72 literal templates
        st, pos = s0, 0
        keep = {}
        for k in range(73):
            if k in (8, 72):
                keep[k] = st
            c = opconsts(pos, 0, None)
            st = self.only(d.go(mapstate(st, keyconst(c), linsub()), c, False), 'template 0x00 number %d' % (k + 1))
            pos += 69
        p1 = 8 * 69
        U = 8 * self.unit
        in1 = p1 // U * self.unit
        n0 = Lift(64 * 69 // 8, 64 * 8, in1, 64).state(keep[8], keep[72])
        first = (n0, p1 - 8 * in1)
        # which memory cells carry information from one template to the next
        w, self.which = self.which, ''
        d.rbw = set()
        for op, arg in variants(False):
            self.iterate(n0, first[1], None, op, arg, False)
        self.which = w
        visited = {}
        order = []
        work = [first]
        lim = 700 if tier == 'quick' else 4000
        full = True
        while work and self.bad < 8:
            st, pos = work.pop()
            k = nkey(st, d.rbw), pos
            if k in visited:
                continue
            visited[k] = st
            order.append((st, pos))
            if len(visited) > lim:
                self.vague('more than %d loop-header states' % lim)
                break
            for op, arg in variants(full, self.which):
                nx = self.iterate(st, pos, None, op, arg, False)
                if op == SHORT:
                    continue
                for s, p, n in nx:
                    sh = p // U * self.unit
                    # I' = I + sh, T' = T + n
                    m = mapstate(s, keyshift(8 * sh), linsub(I=(QI, -sh), T=(sym('T'), -n)))
                    hist(m)
                    work.append((m, p - 8 * sh))
            full = False
        self.states = len(visited)
        # exactly enough space
        for st, pos in order:
            if self.bad >= 8:
                break
            for op, arg in variants(False, self.which):
                self.iterate(st, pos, None, op, arg, True)
                for lack in self.shortages(pos, op, arg):
                    self.iterate(st, pos, None, op, arg, lack)
        return s0, order

    def positions(self, s0, order, tier):
        """index references at every output position"""
        pick = [order[0]] if order else []
        st, pos = order[0]
        few = (0x19, 0x18, 0x12)
        for r in range(0, 2048, 8):
            if self.bad >= 8:
                return
            self.rshift = r - R0
            m = mapstate(st, ident, linsub(T=(sym('T'), r - R0)))
            ops = few if r not in (0, 8, 504, 512, 1024, 2040) and tier == 'quick' else sorted(TEMPLATES)
            for op in ops:
                self.shifted_iter(m, pos, op, r)
        self.rshift = 0
        for T in list(range(0, 2072, 8)) + [2552, 2560, 2568, 3064, 3072, 3584, 4080, 4088, 4096]:
            if self.bad >= 8:
                return
            m = mapstate(st, ident, linsub(T=(Q0, T - R0)))
            hist(m, T)
            ops = few if T not in (0, 8, 16, 512, 520, 2040, 2048, 2056) and tier == 'quick' else sorted(TEMPLATES)
            for op in ops:
                self.iterate(m, pos, T, op, None, False)
        # the very first template
        self.first(s0, order)

    def first(self, s0, order):
        """the very first template, and: the states after it are instances of the general ones"""
        general = {}
        for op, arg in variants(False, self.which):
            nx = self.iterate(s0, 0, 0, op, arg, False, deep=False)
            self.iterate(s0, 0, 0, op, arg, True, deep=False)
            for lack in self.shortages(0, op, arg):
                self.iterate(s0, 0, 0, op, arg, lack, deep=False)
            for s, p, n in nx if op != SHORT else ():
                sh = p // (8 * self.unit) * self.unit
                have = nkey(s, self.d.rbw)
                for st, pos in order:
                    if pos == p - 8 * sh:
                        g = mapstate(st, keyshift(-8 * sh), linsub(I=(Q0, sh), T=(Q0, n - R0)))
                        if nkey(g, self.d.rbw) == have:
                            break
                else:
                    self.vague('the state after %s at the start of the stream is not covered by the general states' % opname(op, arg))

    def shifted_iter(self, m, pos, op, r):
        global R0
        hist_r0 = R0
        try:
            R0 = r
            sh, self.rshift = self.rshift, 0
            hist(m)
            self.iterate(m, pos, None, op, None, False)
        finally:
            R0 = hist_r0

    def only(self, res, when):
        h = [r for r in res if r[0] == 'hdr' and not r[1].imp]
        if len(h) != 1:
            raise Inconclusive('%d ways to go on %s' % (len(h), when))
        return h[0][1]


def show(got):
    ks = [KEYS[x] if x > 1 else x for x in got]
    if all(isinstance(x, tuple) and x[0] == 's' for x in ks):
        return 'stream bits ' + ','.join(str(x[1]) for x in reversed(ks))
    if all(isinstance(x, tuple) and x[0] == 'o' for x in ks):
        s = toS(ks[0][1])
        return 'output byte at %s%d+%s' % ('T+' if any(s.q) else '', s.c, 'index' if s.bits else '0')
    if all(isinstance(x, tuple) and x[0] == 'h' for x in ks):
        return 'previous byte %d' % ks[0][1]
    if ks and isinstance(ks[0], tuple) and ks[0][0] in ('crc', 'nw', 'm', 'ty'):
        return {'crc': 'checksum bits', 'nw': 'bits that were never written', 'm': 'table entries', 'ty': 'table entries'}[ks[0][0]]
    if all(isinstance(x, int) for x in ks):
        return '0x%02x' % sum(x << i for i, x in enumerate(ks))
    return 'a mixture of bits'


DECODERS = [('sw842_decompress', build.SERIAL[:1], 1, True), ('optsw842_decompress', build.OPT[:1] + build.SERIAL[:1], 8, False)]


def find(funcs, name):
    if name in funcs:
        return name
    for n in funcs:
        if re.match(r'_Z\d+%s' % name, n):
            return n
    return name


def one(args):
    """one decoder, in its own process; violations come back as plain tuples"""
    k, which, tier = args
    import common
    name, srcs, unit, short_ok = DECODERS[k]
    rep = common.Report(which)
    try:
        funcs, gv = build.merged(srcs)
        bitflow.GRAN[1] = unit
        c = Checker(rep, funcs, gv, find(funcs, name), unit, short_ok, which)
        s0, order = c.run(tier)
        if which == 'P15':
            c.positions(s0, order, tier)
        else:
            c.first(s0, order)
        rep.obligation('%s: %d header states, %d template iterations, %d paths, %d output bytes compared, %d imprecise' % (
            name, c.states, c.n['iterations'], c.n['paths'], c.n['bytes'], c.n['imprecise']))
        rep.cov[name] = dict(c.n, header_states=c.states)
        rep.funcs.add(name)
        if c.n['imprecise']:
            rep.notes.append('%s: %s' % (name, c.why))
    except (Inconclusive, Limit) as e:
        rep.notes.append('inconclusive for %s: %s' % (name, e))
        print('inconclusive for %s: %s' % (name, e))
    return [(v['where'], v['function'], v['msg'], v['key']) for v in rep.viol], rep.obl, rep.notes, rep.cov, rep.funcs


def check(rep, tier, which='P15'):
    import multiprocessing
    build.irs(build.SERIAL + build.OPT)
    with multiprocessing.Pool(2) as pool:
        for viol, obl, notes, cov, funcs in pool.map(one, [(k, which, tier) for k in range(len(DECODERS))]):
            for w, f, m, k in viol:
                p, l = w.rsplit(':', 1) if ':' in w else (w, '?')
                rep.violation((p, l, f), m, key=k)
            rep.obl += obl
            rep.notes += notes
            rep.cov.update(cov)
            rep.funcs |= funcs
    if which == 'P06':
        crc_function(rep, tier)


# ------------------------------------------------------------------ the checksum itself
class CrcFlow(bitflow.Flow):
    def load_obj(self, st, o, off, size):
        if o == 'data':
            if not isinstance(off, int):
                return B((-1,) * (8 * size))
            return simp(B(key(('d', off - self.start + k, j)) if 0 <= off - self.start + k < self.n else -1 for k in range(size) for j in range(8)))
        return None

    def stopped(self, st, why):
        raise Inconclusive(why)


def crc_spec(n):
    """CRC-32 (polynomial 0x04c11db7, most significant bit first, initial value 0) of n unknown bytes, as GF(2) sums"""
    reg = [0] * 32
    for k in range(n):
        for j in range(7, -1, -1):
            top = bitflow.xor(reg[31], key(('d', k, j)))
            reg = [0] + reg[:31]
            for i in range(32):
                if 0x04c11db7 >> i & 1:
                    reg[i] = bitflow.xor(reg[i], top)
    return tuple(reg)


def crc_function(rep, tier):
    for srcs in (build.SERIAL[:1], build.SERIAL[1:2], build.OPT[:1], build.OPT[1:2]):
        funcs, gv = build.merged(srcs)
        names = sorted(n for n, f in funcs.items() if re.search('crc', n, re.I) and not f.decl and len(f.args) == 3)
        for name in names:
            f = funcs[name]
            d = CrcFlow(funcs, gv, 0)
            d.header_ok = lambda fr, t: False
            lens = list(range(0, 36)) + [61, 64, 67] + (list(range(36, 200)) if tier == 'thorough' else [])
            done = 0
            try:
                for align in (0, 1, 2, 3, 4, 5, 6, 7):
                    for n in lens:
                        d.start, d.n, d.steps, d.max_steps = align, n, 0, 400000
                        st = bitflow.State()
                        fr = bitflow.Frame(f)
                        fr.env[('a', 0)], fr.env[('a', 1)], fr.env[('a', 2)] = 0, P('data', align), n
                        st.frames.append(fr)
                        out = []
                        d.walk(st, lambda s: None, lambda s, v, i: out.append((s, v, i)))
                        if len(out) != 1 or out[0][0].imp:
                            raise Inconclusive('the checksum routine branches on data')
                        got = tuple(as_bits(out[0][1], 32))
                        if -1 in got:
                            raise Inconclusive('checksum bits of unknown origin')
                        if got != crc_spec(n):
                            why = ''
                            for k, i in d.nonaffine.items():
                                why = ' (entry %d of the table at %s+%d is not linear in its index)' % (i, k[0], k[1])
                            rep.violation(out[0][2], '%s of %d bytes at alignment %d is not the CRC-32 with polynomial 0x04c11db7%s' % (name, n, align, why),
                                          key='%s: wrong checksum' % name)
                            raise StopIteration
                        done += 1
                rep.obligation('%s in %s: %d lengths/alignments, all 32 result bits equal the polynomial remainder for every input' % (name, srcs[0], done))
            except StopIteration:
                pass
            except (Inconclusive, Limit) as e:
                rep.notes.append('inconclusive for %s in %s: %s' % (name, srcs[0], e))
                print('inconclusive for %s: %s' % (name, e))
