"""Compressor conformance (P23): what a compressor emits for each block decodes, by the 842 format, to that block.

Same bit-provenance dataflow as format.py, over the compressors: the template loop is analysed from every reachable combination of bit position
and pending repeat count, with symbolic input data and positions; the emitted bits are parsed by the format's own tables.
"""
import re
from fractions import Fraction
import bitflow, format as fmt
from bitflow import B, P, S, CMP, FN, TOP, Q, Q0, KEYS, key, simp, toS, mkS, as_bits, core, Limit, sym, Flow
from format import Inconclusive, mapval, linsub, ident, canon, TEMPLATES, IBITS, FIFO, OPB, REPEAT, ZEROS, SHORT, END, REPB, SHORTB, CRCB
import build, irload, irq

R0 = 1024
QT, QI = sym('T'), sym('I')


class Restart(Exception):
    pass


def known(v):
    return isinstance(v, int) or isinstance(v, B) and -1 not in v


def data(v):
    return isinstance(v, int) or isinstance(v, B) and all(x in (0, 1) or x > 1 and KEYS[x][0] in ('s', 'x') for x in v)


class Enc(Flow):
    def __init__(self, funcs, gv, entry):
        super().__init__(funcs, gv, steps=0)
        self.entry = entry
        self.regions = {}            # (obj, lo, hi) -> [lowest, highest] element value
        self.fields = {}             # (struct, offset) -> [lowest, highest]
        self.consts = None           # byte offset -> constant input byte
        self.deep = False
        self.policy = False
        self.limit = None
        self.exit = False
        self.thrown = 0
        self.loop = None
        self.propagate = True
        self.script = None
        self.rbw = set()
        self.gone = set()
        self.prologue = True
        self.first = False
        self.s0 = None
        self.dooms = {}
        self.base = R0
        self.tracked = set()
        self.lives = {}
        self.dirty = False
        self.cap = self.inlim = None  # capacity from the current unit on, input bytes from the current block on
        self.extent = 0
        self.oob = None               # called with (instruction, message)
        self.hsize = {}
        self.undef = None

    # -- the main loop: the biggest loop of the entry function
    def pick_loop(self, f):
        irload.analyse_cfg(f)
        best = None
        for h, body in f.loops.items():
            ids = set(body)
            n = self.weight(f, ids, 4, set())
            if best is None or n > best[0]:
                best = (n, h)
        if best is None:
            raise Inconclusive('%s has no loop' % f.name)
        return best[1]

    def weight(self, f, ids, depth, busy):
        n = 0
        for b in f.blocks:
            if ids is not None and b.id not in ids:
                continue
            n += len(b.insts)
            if depth:
                for i in b.insts:
                    if i.op in ('call', 'invoke') and i.x['callee'].k == 'func':
                        g = self.funcs.get(i.x['callee'].v)
                        if g is not None and not g.decl and g.name not in busy:
                            n += self.weight(g, None, depth - 1, busy | {g.name})
        return n

    def header_ok(self, fr, t):
        return not self.exit and len(self.cur_frames) == 1 and fr.fn.name == self.entry and t.id == self.loop

    def goto(self, st, fr, t, seen, on_header):
        self.cur_frames = st.frames
        if self.exit:
            h, self.header = self.header, (-1,)
            try:
                return super().goto(st, fr, t, seen, on_header)
            finally:
                self.header = h
        return super().goto(st, fr, t, seen, on_header)

    def path(self, st, todo, seen, on_header, on_ret):
        if self.limit is not None and self.arrived >= self.limit:
            return
        return super().path(st, todo, seen, on_header, on_ret)

    def sig(self, st):
        if self.policy:
            return object()           # a single path: nothing to merge
        fr = []
        for f in st.frames:
            k = (f.fn.name, f.blk.id)
            lv = self.lives.get(k)
            if lv is None:
                lv = self.lives[k] = tuple(self.live(f)) + tuple(('a', i) for i in range(len(f.fn.args)))
            env = f.env
            fr.append((k, f.i, tuple(env.get(x) for x in lv)))
        fr = tuple(fr)
        return hash((fr, frozenset((o, frozenset((a, c[:2]) for a, c in m.items())) for o, m in st.mem.items()),
                frozenset(e for e in st.eqs if e[0] == 'eq' and known(e[1]) and known(e[2]) or e[0] == 'ne' and data(e[1]) and data(e[2]) or
                          e[0] == 'fix' and KEYS[e[1]][0] in 'sx'), tuple(k for k in st.cons if any(x > 1 and KEYS[x][0] in 'sxm' for x in k))))

    # -- conditions
    def decide(self, st, c):
        if c.pred in ('eq', 'ne') and isinstance(c.a, B) and isinstance(c.b, B) and len(c.a) == len(c.b):
            for x, y in zip(c.a, c.b):
                if x > 1 and y > 1 and x != y and bitflow.xor(x, y) == 1:
                    return c.pred == 'ne'
            if data(c.a) and data(c.b):
                f = [e for e in st.eqs if e[0] in ('eq', 'ne') and data(e[1]) and data(e[2])]
                if f:
                    uf = UF(f)
                    n = lambda v: tuple(uf.find(x) for x in v)
                    a, b = n(c.a), n(c.b)
                    if a == b:
                        return c.pred == 'eq'
                    for e in f:
                        if e[0] == 'ne' and {n(as_bits(e[1], len(a))), n(as_bits(e[2], len(a)))} == {a, b}:
                            return c.pred == 'ne'
        return super().decide(st, c)

    def unwanted(self, c):
        """the outcome preferred when only one is followed: data differs and is not zero, look-ups find nothing"""
        v = [x for x in (c.a, c.b) if not isinstance(x, int)]
        data = all(isinstance(x, B) and all(i < 2 or KEYS[i][0] in ('s', 'x') for i in x) for x in v)
        if c.pred in ('eq', 'ne'):
            if data or 0 not in (c.a, c.b):
                return c.pred == 'ne'
            if len(v) == 1 and isinstance(v[0], B) and len(v[0]) == 1 and KEYS[v[0][0]][0] == 'm' if v and isinstance(v[0], B) and v[0][0] > 1 else False:
                return c.pred == 'ne'          # a sign bit: negative, nothing found
            return c.pred == 'eq'
        return False

    def truth(self, st, c, fr, o, todo):
        if not isinstance(c, CMP):
            c = CMP('ne', c if isinstance(c, B) else B((-1,)), 0)
        r = self.decide(st, c)
        ins = fr.blk.insts[fr.i]
        if r is None and ins.op == 'br':
            d = [self.doomed(b) for b in ins.succ]
            if d[0] != d[1]:
                r = d[1]              # the process ends on the other way
                if not self.assume(st, c, r):
                    raise bitflow.Dead()
                if o.k == 'inst':
                    st.frames[-1].env[o.v.id] = int(r)
                return r
        if r is None:
            n = sum(1 for e in st.ev if e[0] == 'b')
            if self.script is not None and n < len(self.script):
                r = self.script[n]
            elif self.policy:
                r = self.unwanted(c)
            elif sum(1 for e in st.ev if e == ('b', ins.fn.name, ins.id, True) or e == ('b', ins.fn.name, ins.id, False)) >= 3 and ins.op == 'br':
                r = self.leave(fr, ins)
            if r is not None:
                st.ev = st.ev + (('b', ins.fn.name, ins.id, r),)
                if not self.assume(st, c, r):
                    raise bitflow.Dead()
            else:
                m = st.copy()
                if self.assume(m, c, False):
                    m.ev = m.ev + (('b', ins.fn.name, ins.id, False),)
                    if o.k == 'inst':
                        m.frames[-1].env[o.v.id] = 0
                    todo.append(m)
                st.ev = st.ev + (('b', ins.fn.name, ins.id, True),)
                if not self.assume(st, c, True):
                    raise bitflow.Dead()
                r = True
        if o.k == 'inst':
            st.frames[-1].env[o.v.id] = int(r)
        return r

    def doomed(self, b):
        """whether all ways from a block end the process"""
        d = self.dooms.get(b.fn.name if hasattr(b, 'fn') else b.insts[0].fn.name)
        if d is None:
            f = b.insts[0].fn
            d = self.dooms[f.name] = {x.id for x in f.blocks if x.insts[-1].op == 'unreachable'}
            while True:
                n = {x.id for x in f.blocks if x.id not in d and x.succ and all(y.id in d for y in x.succ)}
                if not n:
                    break
                d |= n
        return b.id in d

    def leave(self, fr, ins):
        """a loop over dynamically allocated nodes has been followed long enough"""
        irload.analyse_cfg(fr.fn)
        best = None
        for h, body in fr.fn.loops.items():
            if fr.blk.id in body and (best is None or len(body) < len(best)):
                best = body
        if best is None:
            return None
        t = [s.id in best for s in ins.succ]
        return None if t[0] == t[1] else not t[0]

    def assume(self, st, c, t):
        if self.unknown(c.a, c.b):
            return True               # any outcome of a look-up in dynamically allocated tables is considered possible
        imp, eqs = st.imp, st.eqs
        if not super().assume(st, c, t):
            return False
        if st.eqs is not eqs and not (known(c.a) and known(c.b)):
            st.eqs = eqs
        if self.propagate:
            fix = {}
            for v, (lo, hi) in list(st.cons.items()):
                if lo == hi:
                    for i, x in enumerate(v):
                        if x > 1:
                            fix[x] = lo >> i & 1
                    del st.cons[v]
            if fix:
                f = lambda x: fix.get(x, x)
                l = lambda q, c: mkS(q, c, None)
                for fr in st.frames:
                    fr.env = {k: mapval(v, f, l) for k, v in fr.env.items()}
                st.mem = {o: {mapval(a, f, l) if isinstance(a, S) else a: (c[0], mapval(c[1], f, l)) + c[2:] for a, c in m.items()} for o, m in st.mem.items()}
                st.eqs = tuple(e if e[0] in ('n', 'fix') else (e[0], e[1] if e[0] in ('ws', 'tw') else mapval(e[1], f, l), mapval(e[2], f, l)) + e[3:] for e in st.eqs) + tuple(('fix', k, v) for k, v in sorted(fix.items()))
        return True

    def unknown(self, a, b):
        for x in (a, b):
            if x is TOP or isinstance(x, B) and any(i < 0 or i > 1 and KEYS[i][0] == 'ty' for i in x) or isinstance(x, P) and (x.off is TOP or str(x.obj).startswith('ty:')):
                return True
        return False

    def inst(self, st, fr, ins, todo):
        if ins.op == 'icmp' and ins.x[0] == 's':
            a, b = self.val(ins.ops[0], fr), self.val(ins.ops[1], fr)
            w = ins.ops[0].ty.w
            if isinstance(a, B) and isinstance(b, int) and a[-1] != 0:
                k = bitflow.sgn(b, w)
                neg = {('sge', 0): 0, ('sgt', -1): 0, ('slt', 0): 1, ('sle', -1): 1}.get((ins.x, k))
                if neg is not None:
                    c = CMP('eq', B((a[-1],)), neg)
                    r = self.decide(st, c)
                    return c if r is None else int(r)
        if ins.op in ('shl', 'lshr', 'ashr') and self.undef is not None and not st.imp:
            b = self.val(ins.ops[1], fr)
            if isinstance(b, int) and b >= ins.ty.w and not self.speculated(ins):
                self.undef(ins, 'a %d-bit value is shifted by %d' % (ins.ty.w, bitflow.sgn(b, ins.ty.w)))
        if ins.op == 'extractvalue' and self.cap is not None and ins.ty.k == 'int' and ins.ty.w == 32 and ins.ops[0].k == 'inst' and ins.ops[0].v.op == 'landingpad':
            return 1                   # the selector of the first handler
        if ins.op == 'getelementptr':
            v = super().inst(st, fr, ins, todo)
            if v is TOP and ins.x.k == 'struct' and len(ins.ops) > 2:
                p = self.gep(ins.x, [P('ty:%s' % ins.x.name, 0)] + [self.val(o, fr) for o in ins.ops[1:]], ins.ops)
                if isinstance(self.val(ins.ops[1], fr), int) and self.val(ins.ops[1], fr) == 0:
                    return p
            return v
        return super().inst(st, fr, ins, todo)

    def speculated(self, ins):
        """the result may be computed before it is known to be needed"""
        work, seen = [ins], set()
        while work:
            i = work.pop()
            for j in i.bb.insts if i.bb is not None else ():
                if j.id not in seen and any(o.k == 'inst' and o.v is i for o in j.ops):
                    seen.add(j.id)
                    if j.op in ('select', 'phi'):
                        return True
                    if j.op in ('shl', 'lshr', 'ashr', 'or', 'and', 'xor', 'add', 'sub', 'zext', 'trunc', 'sext'):
                        work.append(j)
            for s in i.bb.succ:
                for j in s.insts[:s.nphi]:
                    if any(o.k == 'inst' and o.v is i for o in j.ops):
                        return True
        return False

    def binop(self, ins, a, b):
        r = super().binop(ins, a, b)
        if isinstance(r, B) and set(r) == {-1} and ins.ty.w:
            for x in (a, b):
                if not isinstance(x, (int, B)) or isinstance(x, B) and -1 in x:
                    return r
            return B(key(('f', ins.op, a, b, i)) for i in range(ins.ty.w))
        return r

    # -- memory
    def rangebits(self, name, size, r):
        """unknown bits of an element known to lie in [r0, r1]"""
        w = 8 * size
        if r is None or r[1] >= 1 << (w - 1) and r[0] < 0:
            return B(key(name + (i,)) for i in range(w))
        n = r[1].bit_length()
        s = key(name + ('s',)) if r[0] < 0 else 0
        return B(tuple(key(name + (i,)) for i in range(min(n, w))) + (s,) * (w - n))

    def widen(self, d, k, v, size):
        r = d.get(k)
        w = 8 * size
        if isinstance(v, int):
            x = bitflow.sgn(v, w) if r is None or r[0] < 0 or v >= 1 << (w - 1) and size < 8 else v
            lo, hi = x, x
        elif isinstance(v, B):
            if v[-1] != 0:
                d[k] = [min(-(1 << w), r[0] if r else 0), max(1 << w, r[1] if r else 0)]
                return r != d[k]
            hi = (1 << max([i + 1 for i, x in enumerate(v) if x != 0] or [0])) - 1
            lo = 0
        else:
            d[k] = [min(-(1 << w), r[0] if r else 0), max(1 << w, r[1] if r else 0)]
            return r != d[k]
        if r is None:
            d[k] = [min(lo, 0), (1 << max(hi, 0).bit_length()) - 1]
            return False
        if lo < r[0] or hi > r[1]:
            d[k] = [min(lo, r[0]), max(r[1], (1 << max(hi, 0).bit_length()) - 1)]
            return True
        return False

    def load_obj(self, st, o, off, size):
        if o == 'in':
            s = toS(off) if off is not TOP else None
            if self.inlim is not None and s is not None and s.bits is None and s.q == (QT if self.deep else Q0):
                rel = s.c - (self.base if self.deep else 0)
                if rel + size > self.inlim or not self.deep and rel < 0:
                    self.oob(st, self.where(st), 'reads input byte %s the %s' % (('%d past' % (rel + size - self.inlim), 'end') if rel + size > self.inlim else (-rel, 'start')))
            if s is None or s.bits is not None or s.q != (QT if self.deep else Q0):
                return B((-1,) * (8 * size))
            r = []
            base = self.base if self.deep else self.at
            for k in range(size):
                rel = s.c + k - base
                c = self.consts(s.c + k) if self.consts is not None else None
                for j in range(8):
                    r.append((c >> j) & 1 if c is not None else key(('s', 8 * rel + 7 - j)))
            return simp(B(r))
        if o.startswith('ty:'):
            if not isinstance(off, int):
                return B((-1,) * (8 * size))
            r = self.fields.get((o, off, size))
            if self.where(st).ty.k == 'ptr':
                return TOP
            if r is None:
                return B((-1,) * (8 * size))
            return self.rangebits(('ty', o, off) + self.site(st), size, r)
        if self.oob is not None and o in self.hsize:
            self.inheap(st, o, off, size)
        if o.startswith('heap') and isinstance(off, (S, B)):
            s = canon(off)
            if s is not None and s.bits is not None and not any(s.q):
                R = self.region(o, s, st)
                add, z, cb = core(s.bits)
                if self.first and size == 1 << z:
                    v = self.initial(st, R, size)
                    if v is not None:
                        return v
                if size == 1 << z:
                    ver = sum(1 for e in st.eqs if e[0] == 'ws' and e[1] == R)
                    return self.rangebits(('m', R, cb, ver, z, s.c + add), size, self.regions[R])
                return B((-1,) * (8 * size))
        return None

    def inheap(self, st, o, off, size):
        """an access to a block of known size"""
        if isinstance(off, int):
            lo, hi = off, off + size
        else:
            s = canon(off) if off is not TOP else None
            if s is None or any(s.q):
                return
            lo, hi = bitflow.srange(s, st.cons)
            hi += size
        if lo < 0 or hi > self.hsize[o]:
            self.oob(st, self.where(st), 'accesses bytes %d to %d of a table of %d bytes' % (lo, hi - 1, self.hsize[o]))

    def site(self, st):
        """the chain of calls and the instruction"""
        return tuple(f.call.id for f in st.frames[1:]) + (st.frames[-1].blk.insts[st.frames[-1].i].id,)

    def region(self, o, s, st):
        add, z, cb = core(s.bits)
        lo = s.c + add
        R = (o, lo, lo + (1 << len(cb) + z))
        for x in list(self.regions):
            if x[0] == o and x[1] < R[2] and R[1] < x[2]:
                if x[1] <= R[1] and R[2] <= x[2]:
                    return x
                R = (o, min(x[1], R[1]), max(x[2], R[2]))
                del self.regions[x]
        if R not in self.regions:
            self.regions[R] = None
            for a, c in (self.s0 or st).mem[o].items():
                if isinstance(a, int) and R[1] <= a < R[2] and isinstance(c[1], (int, B)):
                    self.widen(self.regions, R, c[1], c[0])
            raise Restart()
        return R

    def initial(self, st, R, size):
        """the value all elements of a table have before the first block"""
        if any(e[0] == 'ws' and e[1] == R for e in st.eqs):
            return None
        m = self.s0.mem[R[0]]
        v = set()
        for a in range(R[1], R[2], size):
            c = m.get(a)
            if c is None or c[0] != size or not isinstance(c[1], int):
                return None
            v.add(c[1])
        return v.pop() if len(v) == 1 else None

    def grown(self):
        if self.tracked is None:
            self.dirty = True         # several blocks are looked at before starting again
        else:
            raise Restart()

    def store(self, st, p, size, v):
        if not isinstance(p, P):
            return                     # dynamically allocated table nodes are apart from the tracked objects
        o, off = p
        if self.cap is not None and o == 'out':
            x = toS(off) if off is not TOP else None
            if x is not None and x.bits is None and x.q == (QI if self.deep else Q0):
                self.extent = max(self.extent, x.c + size)
                if x.c + size > self.cap:
                    self.oob(st, self.where(st), 'stores %d bytes where %d bytes of output capacity are left' % (size, max(self.cap - x.c, 0)))
                elif x.c < 0 and not self.deep:
                    self.oob(st, self.where(st), 'stores before the output buffer')
            else:
                self.oob(st, None, 'store to an unknown place of the output')
        if self.oob is not None and o in self.hsize:
            self.inheap(st, o, off, size)
        if o.startswith('ty:'):
            if isinstance(off, int) and not isinstance(v, P):
                if self.widen(self.fields, (o, off, size), v, size):
                    self.grown()
                if self.tracked is None or (o, off) in self.tracked:
                    st.eqs = st.eqs + (('tw', (o, off), v),)
            return
        if isinstance(v, P) and str(v.obj).startswith('ty:'):
            v = TOP
        if off is TOP:
            raise bitflow.Stop('store at an unknown offset of %s' % o)
        if o.startswith('heap'):
            s = canon(off)
            if s is not None and s.bits is not None and not any(s.q):
                R = self.region(o, s, st)
                if self.widen(self.regions, R, v, size):
                    self.grown()
                st.eqs = st.eqs + (('ws', R, v, s, size),)
                for a in [a for a in st.mem[o] if isinstance(a, int) and R[1] <= a < R[2]]:
                    del st.mem[o][a]
                return
            if isinstance(off, int):
                for R in self.regions:
                    if R[0] == o and R[1] <= off < R[2]:
                        if self.widen(self.regions, R, v, size):
                            self.grown()
                        if not self.prologue:
                            st.eqs = st.eqs + (('ws', R, v, off, size),)
        return super().store(st, p, size, v)

    def call(self, st, fr, ins, todo):
        cv = ins.x['callee']
        if self.cap is not None and cv.k == 'func':
            n = cv.v
            if n in ('__cxa_throw', '__cxa_rethrow'):
                return self.unwind(st, ins)
            if n.startswith('llvm.eh.typeid.for'):
                self.ret_to(st, ins, 1)
                return None
            if n in ('__cxa_begin_catch', '__cxa_allocate_exception', '__cxa_get_exception_ptr'):
                self.ret_to(st, ins, TOP)
                return None
            if n in ('__cxa_end_catch', '__cxa_free_exception'):
                self.ret_to(st, ins, None)
                return None
        return super().call(st, fr, ins, todo)

    def unwind(self, st, ins):
        """the handler that is found first catches"""
        while True:
            fr = st.frames[-1]
            if ins.op == 'invoke':
                self.setblk(fr, ins.x['unwind'])
                return None
            ins = fr.call
            if len(st.frames) == 1:
                self.thrown += 1
                return 'end'
            st.frames.pop()
            self.drop_locals(st, len(st.frames))

    def external(self, st, ins, name, a):
        if re.search('crc', name, re.I) and self.funcs.get(name) is not None and any(isinstance(x, P) and x.obj == 'in' for x in a):
            if ins.ty.w:
                return B(key(('crc', tuple(a), k)) for k in range(ins.ty.w))
        if name in ('malloc', 'calloc', '_Znwm', 'aligned_alloc', '_Znam'):
            if not self.prologue:
                return TOP
            n = 0
            while 'heap%d' % n in st.mem:
                n += 1
            st.mem['heap%d' % n] = {}
            if name in ('malloc', '_Znwm', '_Znam') and isinstance(a[0], int):
                self.hsize['heap%d' % n] = a[0]
            return P('heap%d' % n, 0)
        if name in ('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv'):
            return None
        if name in ('__cxa_throw', '__cxa_allocate_exception'):
            self.thrown += 1
            return 'end'
        if name in ('memcmp', 'bcmp', 'strlen'):
            return B((-1,) * ins.ty.w)
        return super().external(st, ins, name, a)

    def memop(self, st, ins, b, a):
        if not isinstance(a[0], P) or a[0].obj.startswith('ty:'):
            return None
        return super().memop(st, ins, b, a)

    def stopped(self, st, why):
        raise Inconclusive('%s (at %s)' % (why, irq.loc(self.where(st))))

    # -- runs
    def start(self):
        f = self.funcs.get(self.entry)
        if f is None or f.decl:
            raise Inconclusive('%s is not defined' % self.entry)
        if len(f.args) != 4:
            raise Inconclusive('%s does not have four parameters' % self.entry)
        self.loop = self.pick_loop(f)
        st = bitflow.State()
        fr = bitflow.Frame(f)
        for k, v in enumerate((P('in', 0), S(sym('N'), 0, None), P('out', 0), P('olen', 0))):
            fr.env[('a', k)] = v
        st.frames.append(fr)
        st.mem['out'] = {}
        st.mem['olen'] = {0: (8, S(sym('M'), 0, None))}
        return st

    def go(self, st, deep=True, exit=False, limit=None, budget=6000000, policy=False, script=None, keep=False):
        self.deep, self.exit, self.limit, self.arrived = deep, exit, limit, 0
        self.policy, self.script = policy, script
        self.steps, self.max_steps, self.thrown = 0, budget, 0
        out = []
        st.ev, st.cons, st.imp = (), {}, ''
        if not keep:
            st.eqs = ()

        def hdr(s):
            self.arrived += 1
            out.append(('hdr', s))

        def ret(s, v, i):
            self.arrived += 1
            out.append(('ret', s, v, i))
        self.walk(st, hdr, ret)
        return out

    def load(self, st, p, size, ty):
        if isinstance(p, P) and isinstance(p.off, int) and p.obj not in ('in', 'out'):
            m = st.mem.get(p.obj)
            if m is not None:
                for d in range(-7, size):
                    a = p.off + d
                    c = m.get(a)
                    if c is not None:
                        if len(c) == 3 and (d >= 0 or c[0] > -d):
                            self.rbw.add((p.obj, a))
                    elif (p.obj, a) in self.gone and 0 <= d:
                        if self.tracked is None:
                            return TOP if ty.k == 'ptr' else B(key(('u', (p.obj, p.off), j)) for j in range(8 * size))
                        self.rbw.add((p.obj, a))
                        self.gone.discard((p.obj, a))
                        raise Restart()
        return super().load(st, p, size, ty)


# ------------------------------------------------------------------ states
def locs(st):
    """(location, value) of everything a header state carries, output cells apart"""
    for d, f in enumerate(st.frames):
        for k, v in f.env.items():
            yield ('e', d, k), v
    for o, m in st.mem.items():
        if o != 'out':
            for a, c in m.items():
                yield ('m', o, a, c[0]), c[1]


def rewrite(st, f):
    """a copy with every value v at location l replaced by f(l, v)"""
    n = st.copy()
    for d, fr in enumerate(n.frames):
        fr.env = {k: f(('e', d, k), v) for k, v in fr.env.items()}
    n.mem = {o: m if o == 'out' else {a: (c[0], f(('m', o, a, c[0]), c[1]), 1) for a, c in m.items()} for o, m in n.mem.items()}
    return n


class Lift2(fmt.Lift):
    def __init__(self, di, dt, out1, in1):
        super().__init__(di, dt, out1, in1)
        self.ks1, self.ks2 = fmt.keyshift(8 * in1), fmt.keyshift(8 * (in1 + dt))

    def val(self, x, y):
        try:
            return super().val(x, y)
        except Inconclusive:
            return TOP

    def state(self, s1, s2):
        n = super().state(s1, s2)
        n.mem['out'] = {}
        return n


class UF:
    def __init__(self, eqs):
        self.p = {}
        for e in eqs:
            if e[0] == 'eq' and isinstance(e[1], (int, B)) and isinstance(e[2], (int, B)):
                w = len(e[1]) if isinstance(e[1], B) else len(e[2]) if isinstance(e[2], B) else 0
                for a, b in zip(as_bits(e[1], w), as_bits(e[2], w)):
                    if a >= 0 and b >= 0:
                        self.join(a, b)
            elif e[0] == 'fix':
                s, c = bitflow.terms(e[1])
                if len(s) == 1:
                    self.join(next(iter(s)), e[2] ^ c)
                elif len(s) == 2 and e[2] == c:
                    self.join(*s)

    def find(self, x):
        while x in self.p:
            x = self.p[x]
        return x

    def join(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            if a < 2:
                a, b = b, a
            self.p[a] = b

    def same(self, a, b):
        return a == b or self.find(a) == self.find(b)


def tok(i):
    return key(('s', i))


PREV = [tok(i) for i in range(-64, 0)]
CUR = [tok(i) for i in range(64)]


class Gen:
    def __init__(self, rep, funcs, gv, entry, tier):
        self.rep, self.entry, self.tier = rep, entry, tier
        self.e = Enc(funcs, gv, entry)
        self.n = {'states': 0, 'iterations': 0, 'paths': 0, 'bits': 0, 'imprecise': 0}
        self.why = {}
        self.bad = 0
        self.nw = key(('nw',))
        self.e.undef = self.viol
        self.mute = False             # set while only the bounds are of interest
        self.ctx = ''

    def vague(self, why):
        self.n['imprecise'] += 1
        self.why[why] = self.why.get(why, 0) + 1

    def viol(self, ins, msg):
        self.bad += 1
        if not self.mute:
            self.rep.violation(ins, msg, key='%s: %s' % (self.entry, msg))

    def only(self, res, when):
        h = [r for r in res if r[0] == 'hdr']
        if len(h) != 1:
            raise Inconclusive('%d ways to go on %s' % (len(h), when))
        return h[0][1]

    # -- the shape of a header state, from a run of literal blocks
    def chain(self):
        e = self.e
        if e.s0 is None:
            e.header, e.prologue, e.at = None, True, 0
            e.s0 = self.only(e.go(e.start(), deep=False, policy=True), 'before the first block')
            e.prologue = False
        s = e.s0.copy()
        ch = [s]
        for k in range(74):
            s = self.only(e.go(s.copy(), deep=False, policy=True), 'after literal block %d' % (k + 1))
            ch.append(s)
        return ch

    def learn(self, ch):
        self.s0 = ch[0]
        vals = [dict(locs(s)) for s in ch]
        self.counter = self.outptr = None
        rng = range(2, 75)
        for l, v in vals[2].items():
            if isinstance(v, int) and self.counter is None:
                vs = [vals[k].get(l) for k in rng]
                for U in (8, 64):
                    for name, f in (('used', lambda p: p), ('free', lambda p: U - p), ('free0', lambda p: (U - p) % U)):
                        if all(x == f(69 * k % U) for x, k in zip(vs, rng)):
                            self.counter = (l, U, name)
        if self.counter is None:
            raise Inconclusive('no variable holds the bit position')
        U = self.counter[1]
        for l, v in vals[2].items():
            if isinstance(v, P) and v.obj == 'out' and self.outptr is None:
                if all(isinstance(vals[k].get(l), P) and vals[k][l] == P('out', 69 * k // U * (U // 8)) for k in rng):
                    self.outptr = l
        if self.outptr is None:
            raise Inconclusive('no variable points to the next output unit')
        A = []
        for k in (9, 10):
            u = 69 * k // 64 * 8
            A.append(Lift2(69 * 8, 512, u, 8 * k).state(ch[k], ch[k + 64]))
        # memory the loop does not read before writing is of no interest
        self.e.rbw, self.e.gone = getattr(self, 'keeprbw', set()), set()
        A = [self.name(a) for a in A]
        self.pending = {}
        fits = []
        for a, k in zip(A, (9, 10)):
            b = 69 * k % 64
            self.partial(a, ch[k], 69 * k // 64 * 8, b)
            found = {}
            for l, v in list(locs(a)):
                if not isinstance(v, B) or not any(x > 1 for x in v) or l[0] == 'm' and l[1] == 'olen':
                    continue
                def pert(l2, v2):
                    return B(key(('w', l, j)) for j in range(len(v2))) if l2 == l else v2
                try:
                    bits = self.exitbits(rewrite(a, pert), 0, 0)
                except (Inconclusive, Limit):
                    continue
                for pos in range(min(b, len(bits))):
                    x = bits[pos]
                    if x > 1 and KEYS[x][0] == 'w' and KEYS[x][1] == l:
                        found.setdefault(l, {})[pos] = KEYS[x][2]
            fits.append((b, found))
        for l in fits[0][1]:
            f0, f1 = fits[0][1][l], fits[1][1].get(l, {})
            d0 = set(j + p for p, j in f0.items())
            d1 = set(j + p for p, j in f1.items())
            if len(d0) == 1 and len(d1) == 1:
                d0, d1 = d0.pop(), d1.pop()
                if d0 == d1:
                    self.pending[l] = (0, d0)
                elif d1 - d0 == fits[1][0] - fits[0][0]:
                    self.pending[l] = (1, d0 - fits[0][0])
        self.canon0 = dict(locs(A[0]))
        self.A0 = A[0]
        self.b0 = 69 * 9 % 64

    def name(self, st):
        """unknown bits get a name; table contents are forgotten"""
        n = rewrite(st, self.general)
        for R in self.e.regions:
            m = n.mem.get(R[0])
            if m:
                for a in [a for a in m if isinstance(a, int) and R[1] <= a < R[2]]:
                    del m[a]
        return n

    def general(self, l, v):
        if isinstance(v, B):
            return simp(B(x if x in (0, 1) or x > 1 and KEYS[x][0] == 's' and -64 <= KEYS[x][1] < 0 else key(('u', l, j)) for j, x in enumerate(v)))
        if isinstance(v, S) and v.bits is not None:
            return TOP
        if isinstance(v, P) and isinstance(v.off, B) or isinstance(v, P) and isinstance(v.off, S) and v.off.bits is not None:
            return TOP
        return TOP if isinstance(v, CMP) else v

    def canon(self, st):
        """the successor state as seen by the next block: -> (state, position in the unit, bits emitted since the last unit start)"""
        q, p = self.pos(st)
        if q != QI:
            raise Inconclusive('the output pointer is lost')
        unit, b = p // 64 * 8, p % 64
        uf = UF(st.eqs)
        up = fmt.keyshift(-64)
        down = fmt.keyshift(64)
        lin = linsub(T=(QT, -8), I=(QI, -unit))
        c0 = self.canon0

        def f(l, v):
            if l in self.pending:
                al, be = self.pending[l]
                w = 8 * l[3] if l[0] == 'm' else len(v) if isinstance(v, B) else 64
                x = list(as_bits(v, w))
                for pos in range(b):
                    j = al * b + be - pos
                    if not 0 <= j < w:
                        raise Inconclusive('buffered bits move')
                    x[j] = key(('w', l, j))
                return simp(B(y if y < 2 or KEYS[y][0] == 'w' and KEYS[y][1] == l else key(('u', l, j)) for j, y in enumerate(x)))
            g = c0.get(l, v)
            if g is TOP:
                return TOP
            if isinstance(g, B):
                w = len(g)
                x = as_bits(v, w) if isinstance(v, (int, B)) else None
                if x is not None and all(e == y or e > 1 and (KEYS[e][0] == 'u' or KEYS[e][0] == 's' and uf.same(up(e), y)) for e, y in zip(g, x)):
                    return g
            v = mapval(v, lambda x: down(x) if KEYS[x][0] == 's' else x, lin)
            return self.general(l, v)
        n = rewrite(st, f)
        for o, m in n.mem.items():
            for a in [a for a in m if isinstance(a, int)]:
                if (o, a) not in self.e.rbw and o not in ('out', 'olen') or any(R[0] == o and R[1] <= a < R[2] for R in self.e.regions):
                    if not any(R[0] == o and R[1] <= a < R[2] for R in self.e.regions):
                        self.e.gone.add((o, a))
                    del m[a]
        for fr in n.frames:
            fr.env = {k: v for k, v in fr.env.items() if v is not TOP}
        self.partial(n, None, 0, b)
        n.eqs, n.cons, n.ev, n.imp = (), {}, (), ''
        return n, b, p

    def skey(self, st, b, r):
        return (b, r, tuple((f.fn.name, f.blk.id, f.i, frozenset(f.env.items())) for f in st.frames),
                frozenset((o, frozenset((a, c[:2]) for a, c in m.items())) for o, m in st.mem.items()))

    def partial(self, a, src, unit, b):
        """already emitted bits that stay in the output buffer"""
        out = a.mem['out'] = {}
        for k in range(b // 8 + 1 if b % 8 else b // 8):
            out[mkS(QI, k, None)] = (1, B(key(('w', 'out', 8 * k + 7 - j)) if 8 * k + 7 - j < b else 0 for j in range(8)))

    def pos(self, st):
        l, U, name = self.counter
        v = self.at(st, l)
        if not isinstance(v, int):
            raise Inconclusive('the bit position is not constant')
        c = v if name == 'used' else (U - v) % U if name == 'free0' else U - v
        p = self.at(st, self.outptr)
        if not isinstance(p, P) or p.obj != 'out' or p.off is TOP or toS(p.off) is None or toS(p.off).bits is not None:
            raise Inconclusive('the output pointer is lost')
        s = toS(p.off)
        return s.q, 8 * s.c + c

    def at(self, st, l):
        if l[0] == 'e':
            return st.frames[l[1]].env.get(l[2], TOP)
        c = st.mem.get(l[1], {}).get(l[2])
        return c[1] if c is not None and c[0] == l[3] else TOP

    # -- what is emitted when the input ends here
    def finish(self, st, more, tail, deep=True):
        """run to the end with `more` blocks and `tail` bytes still to come: [(state, value, inst)]"""
        e = self.e
        q = (QT, R0 + more) if deep else (Q0, more)
        n = fmt.mapstate(st, ident, linsub(N=(q[0], q[1] + tail)))
        n.mem = {o: {a: (c[0], c[1]) if o == 'out' else c for a, c in m.items()} for o, m in n.mem.items()}
        n.eqs = st.eqs
        res = e.go(n, deep=deep, exit=True, policy=True, keep=True)
        return [r for r in res if r[0] == 'ret']

    def exitbits(self, st, more, tail, deep=True):
        r = self.finish(st, more, tail, deep)
        if len(r) != 1:
            raise Inconclusive('%d ways to finish' % len(r))
        _, s, v, ins = r[0]
        self.last = (s, v, ins)
        return self.emitted(s, deep)

    def emitted(self, s, deep=True):
        m = s.mem['out']
        c = s.mem['olen'].get(0)
        n = toS(c[1]) if c is not None and c[1] is not TOP else None
        q = QI if deep else Q0
        if n is None or n.bits is not None or n.q != q:
            raise Inconclusive('*olen is not known at the end')
        bits = []
        for k in range(n.c):
            a = mkS(q, k, None)
            x = self.e.byte(m, a)
            if x[0] == -1 and not any(m.get(self.e.add(a, -d, 64), (0,))[0] > d for d in range(8)):
                x = (self.nw,) * 8    # never written
            bits += list(x)[::-1]
        return bits

    # -- reading the emitted bits by the format
    def parse(self, bits, p):
        """items [(op, arg, position after the opcode, end)] up to END; None if opcode bits are not constant"""
        out = []
        while True:
            if p + OPB > len(bits):
                return out, 'the output ends without END'
            o = self.const(bits[p:p + OPB])
            if o is None:
                if self.isdata(bits[p:p + OPB]):
                    return out, 'an opcode is expected where the output has %s, after %s' % (
                        fmt.show([x for x in bits[p:p + OPB] if x > 1][:1]), self.names(out[-1:]) or 'the earlier blocks')
                return None, 'opcode bits of unknown value'
            arg = None
            if o in (REPEAT, SHORT):
                w = REPB if o == REPEAT else SHORTB
                arg = self.const(bits[p + OPB:p + OPB + w])
                if arg is None:
                    if self.isdata(bits[p + OPB:p + OPB + w]):
                        return out, 'the count of %s is data' % fmt.opname(o, 0)
                    return None, 'count bits of unknown value'
            use, items = fmt.spec(o, arg)
            if items is None:
                return out, '%s is emitted' % fmt.opname(o, arg)
            if p + OPB + use > len(bits):
                return out, 'the output ends within %s' % fmt.opname(o, arg)
            out.append((o, arg, p + OPB, p + OPB + use))
            p += OPB + use
            if o == END:
                return out, None

    def isdata(self, b):
        """some bit is input data, checksum, index or was never written, and all are known"""
        k = [KEYS[x] for x in b if x > 1]
        ok = set(f for fs in self.tfields.values() for f in fs)
        ms = set(h[0] for hs in self.history.values() for h in hs)
        return -1 not in b and any(x[0] in ('s', 'crc', 'nw') or x[0] == 'ty' and x[1:3] in ok or x[0] == 'm' and (x[1] in self.itabs or x[1] in ms) for x in k)

    def const(self, b):
        v = 0
        for x in b:
            if x not in (0, 1):
                return None
            v = v << 1 | x
        return v

    def check(self, bits, start, s, ins, r, ctx, more, tail, deep=True):
        """the emitted bits from `start` must decode to r copies of the previous block, the current block if more, the tail; -> list of ends of blocks"""
        self.n['bits'] += len(bits)
        items, err = self.parse(bits, start)
        if items is None:
            self.vague(err)
            return None
        if err:
            self.viol(ins, '%s: %s' % (ctx, err))
            return None
        uf = UF(s.eqs)
        want = [(PREV, 'the previous block')] * r + ([(CUR, 'the current block')] if more else [])
        base = 64 if more else 0
        ends = []
        prev = PREV
        done = False
        k = 0
        for o, arg, p, end in items:
            if o == END:
                break
            if done:
                self.viol(ins, '%s: %s after SHORT_DATA' % (ctx, fmt.opname(o, arg)))
                return None
            if o == SHORT:
                w = [tok(base + i) for i in range(8 * tail)]
                if arg != tail:
                    self.viol(ins, '%s: SHORT_DATA of %d bytes is emitted for %d remaining bytes' % (ctx, arg, tail))
                    return None
                if not all(uf.same(x, y) for x, y in zip(bits[p + SHORTB:end], w)):
                    self.differ(ins, '%s: the bytes of SHORT_DATA are not the last input bytes' % ctx, bits[p + SHORTB:end])
                    return None
                done = True
                continue
            if o == REPEAT:
                n = arg + 1
                dec = [prev] * n
            elif o == ZEROS:
                dec = [[0] * 64]
            else:
                d = []
                for it in fmt.spec(o, arg)[1]:
                    if it[0] == 'd':
                        d += bits[p + it[2]:p + it[2] + 8 * it[1]]
                    else:
                        d += [(it[1], tuple(bits[p + it[2]:p + it[2] + it[3]]))] * (8 * it[1])
                dec = [d]
            for d in dec:
                if k >= len(want):
                    self.viol(ins, '%s: more blocks are emitted than were read (%s)' % (ctx, self.names(items)))
                    return None
                w, what = want[k]
                ok = self.equal(d, w, uf, s)
                if ok is None:
                    self.vague('index bits of unknown origin')
                elif not ok:
                    self.differ(ins, '%s: %s is emitted for %s, %s' % (ctx, fmt.opname(o, arg), what, self.reason), [x for x in d if not isinstance(x, tuple)])
                    return None
                prev = w
                k += 1
                ends.append(end)
        if k < len(want):
            self.viol(ins, '%s: a block is missing in the output (%s)' % (ctx, self.names(items)))
            return None
        if tail and not done:
            self.viol(ins, '%s: the last %d bytes are missing in the output' % (ctx, tail))
            return None
        end = items[-1][3]
        crc = bits[end - CRCB:end]
        ks = [KEYS[x] if x > 1 else None for x in crc]
        n = mkS(QT if deep else Q0, (R0 if deep else 0) + (8 if more else 0) + tail, None)
        if all(x is not None and x[0] == 'crc' for x in ks):
            if [x[2] for x in ks] != list(range(CRCB - 1, -1, -1)) or len(set(x[1] for x in ks)) != 1:
                self.viol(ins, '%s: the checksum bits are out of order' % ctx)
                return None
            a = ks[0][1]
            if len(a) != 3 or a[0] != 0 or a[1] != P('in', 0) or a[2] != n:
                self.viol(ins, '%s: the checksum is not crc32_be(0, in, ilen)' % ctx)
                return None
        elif -1 in crc:
            self.vague('checksum bits of unknown origin')
        else:
            self.viol(ins, '%s: the 32 bits after END are not the checksum of the input' % ctx)
            return None
        rest = bits[end:]
        if any(x != 0 for x in rest):
            if -1 in rest:
                self.vague('padding of unknown value')
            else:
                self.viol(ins, '%s: the padding after the checksum is not zero' % ctx)
            return None
        if len(bits) % 64 or len(rest) >= 64:
            self.viol(ins, '%s: the compressed length is not the used length rounded up to a multiple of 8' % ctx)
            return None
        return ends

    def names(self, items):
        return ', '.join(fmt.opname(o, a) for o, a, p, e in items)

    def differ(self, ins, msg, bits):
        if -1 in bits:
            self.vague('output bits of unknown origin')
        else:
            self.viol(ins, msg)

    def equal(self, d, w, uf, s):
        self.reason = 'which is not that block'
        i = 0
        res = True
        while i < 64:
            x = d[i]
            if isinstance(x, tuple):
                size, f = x
                ok = self.index(size, f, w[i:i + 8 * size], uf, s)
                if ok is False:
                    return False
                if ok is None:
                    res = None
                i += 8 * size
                continue
            if not uf.same(x, w[i]):
                self.reason = 'but bit %d of the decoded block is %s' % (i, fmt.show([x]) if x >= 0 else 'unknown')
                return False
            i += 1
        return res

    def index(self, size, f, w, uf, s):
        """index bits f (most significant first) stand for the data bits w"""
        if any(x < 0 for x in f):
            return None
        lo = tuple(f[::-1])
        while lo and lo[-1] == 0:
            lo = lo[:-1]
        kinds = set(KEYS[x][0] for x in f if x > 1)
        if not kinds:
            self.reason = 'but the index field is constant'
            return False
        if kinds == {'ty'}:
            self.tfields.setdefault(size, set()).add(KEYS[max(f)][1:3])
            return True
        if kinds == {'u'}:
            return True
        if kinds != {'m'}:
            self.reason = 'but the index field holds %s' % fmt.show([x for x in f if x > 1][:1])
            return False
        other = False
        for e in s.eqs:
            if e[0] != 'eq':
                continue
            for a, b in ((e[1], e[2]), (e[2], e[1])):
                if isinstance(a, B) and all(x < 2 or KEYS[x][0] == 'm' and KEYS[x][2] == lo for x in a) and any(x > 1 for x in a):
                    m = [x for x in a if x > 1]
                    bb = as_bits(b, len(a))
                    if len(m) == 8 * size and all(uf.same(y, z) for y, z in zip(bb, w[::-1])):
                        k = KEYS[m[0]]
                        self.history.setdefault(size, set()).add((k[1], k[4], k[5]))
                        t = [KEYS[x] for x in lo if x > 1]
                        if t and all(x[0] == 'm' for x in t):
                            self.itabs.setdefault(t[0][1], set()).add(size)
                        return True
                    other = True
        for x in w:                       # bit by bit
            pass
        self.reason = 'but the slot its index names was %s' % ('compared with other data' if other else 'not compared with the data')
        return False

    # -- the fixpoint
    def run(self):
        e = self.e
        self.keeprbw = set()
        self.warmed = False
        for attempt in range(400):
            try:
                return self.attempt()
            except Restart:
                self.keeprbw = set(e.rbw)
        raise Inconclusive('the tables do not stabilise')

    def attempt(self):
        self.n = {'states': 0, 'iterations': 0, 'paths': 0, 'bits': 0, 'imprecise': 0}
        self.why = {}
        self.history, self.itabs, self.tfields = {}, {}, {}
        e = self.e
        ch = self.chain()
        if not self.warmed:
            self.warmed = True
            for _ in range(200):
                try:
                    e.go(ch[20].copy(), deep=False, budget=30000)
                    break
                except Limit:
                    break
                except Restart:
                    pass
            raise Restart()
        self.learn(ch)
        A, b = self.setpend(self.A0, self.b0), self.b0
        self.scripts = {}
        self.iters = []
        n = rewrite(A, lambda l, v: v)
        n.mem['out'] = dict(A.mem['out'])
        e.go(n, policy=True)
        self.again([(A, 0, 0)])
        swept = self.rounds(A)
        nxt = self.explore(A, b, 0, None)
        self.rep.obligation('%s: %d ways to emit a block from a general state' % (self.entry, len(self.scripts)))
        for o, m in A.mem.items():
            for k in [k for k in m if isinstance(k, int) and (o, k) not in e.rbw and o not in ('out', 'olen')]:
                del m[k]
                e.gone.add((o, k))
        seen = {self.skey(A, b, 0)}
        work = []
        self.rb = None

        def push(nx):
            for st, b, r in nx:
                if r > 2:
                    if self.rb is None:
                        self.rb = b
                    if b != self.rb:
                        continue
                k = self.skey(st, b, r)
                if k not in seen:
                    seen.add(k)
                    work.append((st, b, r))
        push(self.again(nxt))
        while work and self.bad < 6:
            st, b, r = work.pop()
            if len(seen) > (700 if self.tier == 'quick' else 3000):
                raise Inconclusive('more than %d states' % len(seen))
            push(self.explore(st, b, r, self.pick(r)))
        self.n['states'] = len(seen)
        self.begin()
        self.sweep(A, swept)

    def pick(self, r):
        few = {(0x00,), ()}
        if r <= 2:
            few |= {(ZEROS,)}
        if r == 0:
            few |= {(0x19,), (0x0e,), (0x0b,), (0x04,)}
            if self.tier == 'thorough':
                return list(self.scripts.values())
        return [v for k, v in self.scripts.items() if k in few]

    def again(self, nxt):
        """successors whose dead cells were kept while the read cells were not known yet"""
        for st, b, r in nxt:
            for o, m in st.mem.items():
                for k in [k for k in m if isinstance(k, int) and (o, k) not in self.e.rbw and o not in ('out', 'olen')]:
                    del m[k]
                    self.e.gone.add((o, k))
        return nxt

    def setpend(self, st, b):
        def f(l, v):
            if l not in self.pending:
                return v
            al, be = self.pending[l]
            w = 8 * l[3] if l[0] == 'm' else len(v) if isinstance(v, B) else 64
            x = list(as_bits(v, w))
            for pos in range(b):
                x[al * b + be - pos] = key(('w', l, al * b + be - pos))
            return simp(B(x))
        n = rewrite(st, f)
        self.partial(n, None, 0, b)
        return n

    def explore(self, A, b, r, scripts):
        e = self.e
        where = 'output bit 64*k+%d, %d pending repeats' % (b, r)
        try:
            pend = self.exitbits(A, 0, 0)
        except Inconclusive as x:
            self.vague(str(x))
            return []
        s, v, ins = self.last
        if v != 0:
            self.viol(ins, 'at the end of the input (%s): compression fails although there is room' % where)
            return []
        if self.check(pend, b, s, ins, r, 'at the end of the input (%s)' % where, 0, 0) is None:
            return []
        if self.short_ok and (r <= 1 or self.tier == 'thorough'):
            for tail in range(1, 8):
                bits = self.exitbits(A, 0, tail)
                s, v, ins = self.last
                if v != 0:
                    self.viol(ins, 'with %d bytes left (%s): compression fails although there is room' % (tail, where))
                elif bits[:b] != pend[:b]:
                    self.differ(ins, 'with %d bytes left (%s): bits emitted earlier are changed' % (tail, where), bits[:b])
                else:
                    self.check(bits, b, s, ins, r, 'with %d bytes left (%s)' % (tail, where), 0, tail)
        out = []
        for sc in [None] if scripts is None else scripts:
            self.n['iterations'] += 1
            n = rewrite(A, lambda l, v: v)
            n.mem['out'] = dict(A.mem['out'])
            for res in e.go(n, script=sc):
                self.n['paths'] += 1
                x = self.after(res, pend[:b], b, r, where, scripts is None)
                if x is not None:
                    out.append(x)
                if self.bad >= 6:
                    return []
        return out

    def after(self, res, pend, b, r, where, learn):
        s1 = res[1]
        line = self.line(s1) if s1.frames else res[3]
        if s1.imp:
            self.vague('a branch condition outside the domain: ' + irq.loc(s1.imp))
            return None
        if res[0] == 'ret':
            if isinstance(res[2], int) and res[2] == 0:
                self.viol(res[3], 'with more input to come (%s): compression ends' % where)
            elif not self.dynamic(s1):
                self.viol(res[3], 'with more input to come (%s): compression fails although there is room' % where)
            return None
        try:
            bits = self.exitbits(s1, 8, 0)
        except Inconclusive as x:
            self.vague(str(x))
            return None
        s, v, ins = self.last
        if v != 0:
            self.viol(ins, 'after a block (%s): compression fails although there is room' % where)
            return None
        ctx = 'after a block (%s)' % where
        if bits[:b] != pend:
            self.differ(ins, '%s: bits emitted earlier are changed' % ctx, bits[:b])
            return None
        ends = self.check(bits, b, s, ins, r, ctx, 1, 0)
        if ends is None:
            return None
        q, p = self.pos(s1)
        done = sum(1 for x in ends if x <= p)
        if p != b and p not in ends:
            raise Inconclusive('the bit position is not at a template boundary')
        if learn:
            items, err = self.parse(bits, b)
            k = tuple(o for o, arg, pp, end in items if end <= p)
            self.scripts.setdefault(k, [x[3] for x in s1.ev if x[0] == 'b'])
        self.iters.append((s1, line, 128, ctx))
        n, b2, p2 = self.canon(s1)
        return n, b2, len(ends) - done

    def dynamic(self, s):
        """the path failed because of an unknown result (memory allocation)"""
        return True

    # -- what the blocks leave for later look-ups
    def rounds(self, A):
        """a literal block at each of 256 consecutive positions"""
        e = self.e
        n0 = rewrite(A, lambda l, v: v)
        n0.mem['out'] = dict(A.mem['out'])
        out = []
        e.tracked = None
        try:
            for t in list(range(255, -1, -16)) + [t for t in range(256) if t % 16 != 15]:
                d = 8 * (t - 128)
                n = fmt.mapstate(n0, ident, linsub(T=(QT, d)))
                e.base = R0 + d
                for r in e.go(n, policy=True):
                    if r[0] == 'hdr':
                        s = r[1]
                        s.mem = {}
                        s.eqs = tuple(x for x in s.eqs if x[0] in ('ws', 'tw', 'eq', 'fix'))
                        out.append((s, t))
        finally:
            e.base = R0
            e.tracked = set()
        if e.dirty:
            e.dirty = False
            raise Restart()
        return out

    def sweep(self, A, swept):
        if not self.history and not self.tfields:
            raise Inconclusive('no index template is emitted')
        e = self.e
        self.slots = 0
        it, self.iters = self.iters, []
        e.tracked = set(f for fs in self.tfields.values() for f in fs)
        if not e.tracked:
            for x in it:
                self.slot(*x)
        n0 = rewrite(A, lambda l, v: v)
        n0.mem['out'] = dict(A.mem['out'])
        if e.tracked:
            for sc in self.scripts.values():
                n = rewrite(n0, lambda l, v: v)
                n.mem['out'] = dict(A.mem['out'])
                for r in e.go(n, script=sc):
                    if r[0] == 'hdr':
                        self.slot(r[1], self.line(r[1]), 128, 'after a block')
        for st, t in swept:
            self.slot(st, self.line(st), t, 'block %d of 256' % t)
            if self.bad > 6:
                return
        self.rep.obligation('%s: %d look-up table entries written at 256 positions of a block and on all paths' % (self.entry, self.slots))

    def slot(self, s, ins, t, ctx):
        uf = UF(s.eqs)
        new = {}
        for size in (2, 4, 8):
            n, k = 1 << IBITS[size], 8 // size
            new[size] = {(t * k + j) % n: CUR[8 * size * j:8 * size * (j + 1)][::-1] for j in range(k)}
        for size, rs in self.history.items():
            for R, z, lo in rs:
                left = dict(new[size])
                for x in s.eqs:
                    if x[0] != 'ws' or x[1] != R:
                        continue
                    _, _, v, off, w = x
                    if not isinstance(off, int) or w != 1 << z or (off - lo) % w:
                        self.vague('a table entry written at an unknown place')
                        return
                    self.slots += 1
                    i = (off - lo) // w
                    if i not in new[size]:
                        self.viol(ins, '%s: the entry of the history of %d-byte data that is written is not the next one' % (self.gen(ctx), size))
                        return
                    vb = as_bits(v, 8 * w) if isinstance(v, (int, B)) else (-1,)
                    if -1 in vb:
                        self.vague('a table entry of unknown value')
                        return
                    if len(vb) < 8 * size or not all(uf.same(a, c) for a, c in zip(vb, new[size][i])):
                        self.viol(ins, '%s: the history of %d-byte data does not hold the data of the block' % (self.gen(ctx), size))
                        return
                    left.pop(i, None)
                if left:
                    self.viol(ins, '%s: the history of %d-byte data misses %d of %d entries of the block' % (self.gen(ctx), size, len(left), len(new[size])))
                    return
        for R, sizes in self.itabs.items():
            for x in s.eqs:
                if x[0] == 'ws' and x[1] == R:
                    v = x[2]
                    if not isinstance(v, int):
                        self.vague('a table entry of unknown value')
                        return
                    self.slots += 1
                    if not any(v in new[z] for z in sizes) and not v >> (8 * x[4] - 1) & 1:
                        self.viol(ins, '%s: a look-up entry for %s-byte data names an entry of the history that the block did not write' % (self.gen(ctx), '/'.join(map(str, sorted(sizes)))))
                        return
        byf = {}
        for size, fs in self.tfields.items():
            for f in fs:
                byf.setdefault(f, set()).add(size)
        for f, sizes in byf.items():
            want = set(i for z in sizes for i in new[z])
            got = set(x[2] for x in s.eqs if x[0] == 'tw' and x[1] == f)
            if any(not isinstance(v, int) for v in got):
                self.vague('an index of unknown value')
                return
            self.slots += len(got)
            if got != want:
                self.viol(ins, '%s: the indexes entered for %s-byte data are not those of the block' % (self.gen(ctx), '/'.join(map(str, sorted(sizes)))))
                return

    def line(self, st):
        b = st.frames[-1].blk
        return next((i for i in b.insts if i.line), b.insts[0])

    def gen(self, ctx):
        return 'after a block' if ctx.startswith('block') or ctx.startswith('after') else ctx

    # -- the first block, and inputs shorter than one
    def begin(self):
        e = self.e
        for n in list(range(8 if self.short_ok else 1)) + [8] + ([15] if self.short_ok else []):
            e.header, e.prologue, e.at, e.first = None, True, 0, True
            st = e.start()
            st = fmt.mapstate(st, ident, linsub(N=(Q0, n)))
            st.mem = {o: {a: c[:2] for a, c in m.items()} for o, m in st.mem.items()}
            res = e.go(st, deep=False, policy=n < 8)
            e.prologue = False
            for s in [x[1] for x in res if x[0] == 'hdr']:
                res += e.go(s, deep=False, exit=True, policy=n < 8, keep=True)
            res = [x for x in res if x[0] == 'ret']
            e.first = False
            for _, s, v, ins in res:
                self.n['paths'] += 1
                ctx = 'compressing %d bytes' % n
                if v != 0:
                    if isinstance(v, int):
                        self.viol(ins, '%s: compression fails although there is room' % ctx)
                    continue
                try:
                    bits = self.emitted(s, False)
                except Inconclusive as x:
                    self.vague(str(x))
                    continue
                self.check(bits, 0, s, ins, 0, ctx, n >= 8, n % 8, False)


    # ---------------------------------------------------------------- P05: nothing outside the buffers
    def bounds(self):
        e = self.e
        self.keeprbw = set()
        self.warmed = False
        for attempt in range(400):
            try:
                return self.bounds1()
            except Restart:
                e.cap = e.inlim = e.oob = None
                self.keeprbw = set(e.rbw)
        raise Inconclusive('the tables do not stabilise')

    def bounds1(self):
        self.n = {'states': 0, 'iterations': 0, 'paths': 0, 'bits': 0, 'imprecise': 0}
        self.why = {}
        self.history, self.itabs, self.tfields = {}, {}, {}
        e = self.e
        ch = self.chain()
        if not self.warmed:
            self.warmed = True
            for _ in range(200):
                try:
                    e.go(ch[20].copy(), deep=False, budget=30000)
                    break
                except Limit:
                    break
                except Restart:
                    pass
            raise Restart()
        self.learn(ch)
        A, b = self.setpend(self.A0, self.b0), self.b0
        self.scripts = {}
        self.iters = []
        n = rewrite(A, lambda l, v: v)
        n.mem['out'] = dict(A.mem['out'])
        e.go(n, policy=True)
        self.again([(A, 0, 0)])
        self.seen_oob = set()
        e.oob, self.mute = self.outside, True
        self.rounds(A)
        nxt = self.explore(A, b, 0, None)
        e.oob = None
        if self.bad:
            self.vague('the emitted data is not as expected')
            self.bad = 0
        # one script per emitted length
        by = {}
        for k, v in self.scripts.items():
            by.setdefault(sum(OPB + fmt.spec(o, 0)[0] for o in k), v)
        some = list(by.values())
        keep = self.scripts
        self.scripts = {k: v for k, v in keep.items() if k in ((0x00,), (), (ZEROS,), (0x19,)) + (((0x0e,), (0x04,), (0x0b,), (0x12,), (0x13,)) if self.counter[1] == 64 else ())}
        seen = {self.skey(A, b, 0)}
        work, states = [], {(b, 0): A}
        nxt = self.again(nxt)
        while True:
            for st, b2, r2 in nxt:
                k = self.skey(st, b2, r2)
                if r2 <= 1 and k not in seen and (b2, r2) not in states:
                    seen.add(k)
                    states[b2, r2] = st
                    work.append((st, b2, r2))
            if not work:
                break
            st, b2, r2 = work.pop()
            nxt = self.again(self.explore(st, b2, r2, list(self.scripts.values())))
            self.bad = 0
        self.mute = False
        self.n['states'] = len(states)
        # how the state depends on the capacity modulo 8
        deltas = {}
        live = [dict(locs(x)) for x in states.values()]
        for m in range(8):
            e.header, e.prologue, e.at = None, True, 0
            st = fmt.mapstate(e.start(), ident, linsub(M=(sym('M'), m)))
            st.mem = {o: {a: c[:2] for a, c in x.items()} for o, x in st.mem.items()}
            s = self.only(e.go(st, deep=False, policy=True), 'before the first block')
            e.prologue = False
            deltas[m] = {l: d for l, d in self.delta(ch[0], s).items() if any(l in x for x in live)}
            if m and deltas[m] == deltas[0]:
                del deltas[m]
        jobs = []
        for (b2, r2), st in sorted(states.items()):
            for m in deltas:
                jobs.append((self.fill_state, st, b2, r2, deltas[m], m, some))
        for n in list(range(8 if self.short_ok else 1)) + [8] + ([15] if self.short_ok else []):
            jobs.append((self.fill_input, n))
        self.fork(jobs, 6 if self.short_ok else 3)
        if e.extent > 40:
            self.vague('stores further ahead than the capacities tried')

    def fork(self, jobs, n):
        """run the jobs in n processes and collect what they report"""
        import os, pickle
        kids = []
        base = dict(self.n)
        for k in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                res = None
                try:
                    os.close(r)
                    self.rep.viol = []
                    self.why = {}
                    self.n = {x: 0 for x in self.n}
                    self.e.oob = self.outside
                    for f in jobs[k::n]:
                        f[0](*f[1:])
                        if self.bad >= 6:
                            break
                    res = (self.rep.viol, self.why, self.n, self.e.extent, None)
                except (Inconclusive, Limit, bitflow.Stop) as x:
                    res = (self.rep.viol, self.why, self.n, self.e.extent, str(x))
                except BaseException as x:
                    res = ([], {}, {}, 0, 'analyser error: %r' % x)
                with os.fdopen(w, 'wb') as o:
                    o.write(pickle.dumps(res))
                os._exit(0)
            os.close(w)
            kids.append((pid, r))
        errs = []
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f:
                d = f.read()
            os.waitpid(pid, 0)
            if not d:
                errs.append('a process of the analysis ended early')
                continue
            viol, why, cnt, ext, err = pickle.loads(d)
            for v in viol:
                if v['key'] not in [x['key'] for x in self.rep.viol]:
                    self.rep.viol.append(v)
                    self.bad += 1
            for x, c in why.items():
                self.why[x] = self.why.get(x, 0) + c
            for x, c in cnt.items():
                self.n[x] += c
            self.e.extent = max(self.e.extent, ext)
            if err:
                errs.append(err)
        if errs and not self.bad:
            raise Inconclusive(errs[0])

    def fill_state(self, st, b, r, delta, m, scripts):
        for c in (32, 24, 16, 8, 0) if m == 0 else (24, 16, 8, 0):
            if 8 * (c + m) >= b:
                self.fill(st, b, r, delta, c, m, scripts, 'output bit 64*k+%d, %d pending repeats' % (b, r))

    def fill_input(self, n):
        for c in range(40):
            self.fill_first(n, c)

    def outside(self, st, ins, msg):
        if ins is None or st.imp:
            self.vague(msg)
            return
        k = (ins.fn.name, ins.line, msg.split(' ')[0])
        if k not in self.seen_oob:
            self.seen_oob.add(k)
            m, self.mute = self.mute, False
            self.viol(ins, '%s (%s)' % (msg, self.ctx or 'after a block'))
            self.mute = m

    def delta(self, s0, s1):
        a, b = dict(locs(s0)), dict(locs(s1))
        d = {}
        for l, v in a.items():
            w = b.get(l, TOP)
            if v != w:
                if isinstance(v, P) and isinstance(w, P) and v.obj == w.obj:
                    x, y = toS(v.off), toS(w.off)
                else:
                    x, y = (toS(v), toS(w)) if isinstance(v, (int, S)) and isinstance(w, (int, S)) else (None, None)
                if x is None or y is None or x.q != y.q or x.bits != y.bits:
                    raise Inconclusive('the state depends on the capacity in an unexpected way')
                d[l] = y.c - x.c
        return d

    def fill(self, A, b, r, delta, c, m, scripts, where):
        e = self.e
        dd = dict(delta)

        def add(l, v):
            k = dd.get(l)
            if not k:
                return v
            if isinstance(v, P):
                return P(v.obj, e.add(v.off, k, 64))
            return e.add(v, k, 64)
        for more in (0, 1) if self.counter[1] == 64 or b < 8 else (0,):
            for tail in (0, 7) if self.short_ok and (not more or m == 5 and c == 8) else (0,):
                n0 = fmt.mapstate(rewrite(A, add), ident, linsub(M=(QI, c), N=(QT, R0 + 8 * more + tail)))
                n0.mem['out'] = dict(A.mem['out'])
                e.cap, e.inlim = c + m, 8 * more + tail
                self.ctx = '%s, %d bytes of capacity from there, %d bytes of input' % (where, c + m, 8 * more + tail)
                if not more:
                    s = rewrite(n0, lambda l, v: v)
                    s.mem['out'] = dict(A.mem['out'])
                    self.n['iterations'] += 1
                    for res in e.go(s, exit=True, policy=True):
                        self.left(res, QI, 0)
                else:
                    for sc in scripts:
                        s = rewrite(n0, lambda l, v: v)
                        s.mem['out'] = dict(A.mem['out'])
                        self.n['iterations'] += 1
                        for res in e.go(s, script=sc, policy=True):
                            self.left(res, QI, 0)
        e.cap = e.inlim = None

    def left(self, res, q, base):
        self.n['paths'] += 1
        if res[0] != 'ret':
            return
        _, s, v, ins = res
        if s.imp:
            self.vague('a branch condition outside the domain: ' + irq.loc(s.imp))
            return
        e = self.e
        c = s.mem['olen'].get(0)
        n = toS(c[1]) if c is not None and c[1] is not TOP else None
        if n is None or n.bits is not None or not isinstance(v, int):
            self.vague('*olen or the result is not known at the end')
            return
        if v == 0:
            if n.q != q:
                self.vague('*olen is not known at the end')
            elif n.c > e.cap:
                self.viol1(ins, 'reports %d bytes more than the output capacity' % (n.c - e.cap))
        else:
            if any(n.q) or n.c:
                self.viol1(ins, 'returns an error with a non-zero output length')

    def viol1(self, ins, msg):
        k = (ins.fn.name, ins.line, msg.split(' ')[0])
        if k not in self.seen_oob:
            self.seen_oob.add(k)
            self.viol(ins, '%s (%s)' % (msg, self.ctx))

    def fill_first(self, n, c):
        e = self.e
        e.header, e.prologue, e.at, e.first = None, True, 0, True
        e.cap, e.inlim = c, n
        self.ctx = '%d bytes of capacity, %d bytes of input' % (c, n)
        st = fmt.mapstate(e.start(), ident, linsub(N=(Q0, n), M=(Q0, c)))
        st.mem = {o: {a: x[:2] for a, x in m.items()} for o, m in st.mem.items()}
        try:
            res = e.go(st, deep=False, policy=True)
            e.prologue = False
            for s in [x[1] for x in res if x[0] == 'hdr']:
                res += e.go(s, deep=False, exit=n < 16, policy=True, keep=True)
            for x in res:
                self.left(x, Q0, 0)
        finally:
            e.prologue, e.first = False, False
            e.cap = e.inlim = None


COMPRESSORS = [('sw842_compress', build.SERIAL[1:2], True), ('optsw842_compress', build.OPT[1:] + build.SERIAL[1:2], False)]


def one(args):
    k, tier, which = args
    import common
    name, srcs, short_ok = COMPRESSORS[k]
    rep = common.Report(which)
    try:
        funcs, gv = build.merged(srcs)
        bitflow.GRAN[1] = 8
        bitflow.GRAN[2] = bitflow.GRAN[3] = 8
        g = Gen(rep, funcs, gv, fmt.find(funcs, name), tier)
        g.short_ok = short_ok
        if which == 'P05':
            g.bounds()
        else:
            g.run()
        rep.obligation('%s: %d header states, %d iterations, %d paths, %d emitted bits read back, %d imprecise' % (
            name, g.n['states'], g.n['iterations'], g.n['paths'], g.n['bits'], g.n['imprecise']))
        rep.cov[name] = dict(g.n)
        rep.funcs.add(name)
        if g.n['imprecise']:
            rep.notes.append('%s: %s' % (name, g.why))
    except (Inconclusive, Limit) as e:
        rep.notes.append('inconclusive for %s: %s' % (name, e))
        print('inconclusive for %s: %s' % (name, e))
    return [(v['where'], v['function'], v['msg'], v['key']) for v in rep.viol], rep.obl, rep.notes, rep.cov, rep.funcs


def check(rep, tier, which='P23'):
    import multiprocessing
    build.irs(build.SERIAL + build.OPT)
    with multiprocessing.Pool(2) as pool:
        for viol, obl, notes, cov, funcs in pool.map(one, [(k, tier, which) for k in range(len(COMPRESSORS))], 1):
            for w, f, m, k in viol:
                p, l = w.rsplit(':', 1) if ':' in w else (w, '?')
                rep.violation((p, l, f), m, key=k)
            rep.obl += obl
            rep.notes += notes
            rep.cov.update(cov)
            rep.funcs |= funcs
