"""Path exploration with constants: a bounded interprocedural reachability over (program point, known constants).

No values are computed that the source does not fix: branches on unknown values go both ways, branches on constants (or on
fields a query assumes to have a value) go one way.  Used for questions of the form `with this flag set, can control get
from here back to there without passing such a statement?`."""
from irq import *


class TooBig(Exception):
    pass


NZ = ('nz',)


def isint(v):
    return isinstance(v, int)


class Path:
    """frames: list of (fn, block, idx, prev block, call inst); env: dict"""
    __slots__ = ('frames', 'env', 'tag')

    def __init__(self, frames, env, tag=()):
        self.frames, self.env, self.tag = frames, env, tag

    def key(self):
        return (tuple((f.name, b.id, k, p.id if p is not None else -1) for f, b, k, p, _ in self.frames), frozenset(self.env.items()), self.tag)


class Explorer:
    def __init__(self, U, classes=(), sticky=None, inline=None, limit=40000):
        self.U, self.classes = U, set(classes)
        self.sticky = dict(sticky or {})       # (class, off) -> value every read returns
        self.limit = limit
        self.when = None
        self.pinned = set()
        self.inline = inline or self.default_inline

    def default_inline(self, fn, i):
        s = short(fn.name)
        return not s.startswith(('std::', '__gnu', '__clang', 'llvm.', 'operator'))

    # ------------------------------------------------------------- values
    def val(self, v, p):
        d = len(p.frames)
        if v.k == 'cint':
            return v.v & ((1 << v.ty.w) - 1) if v.ty is not None and v.ty.k == 'int' else v.v
        if v.k in ('null',):
            return 0
        if v.k == 'inst':
            return p.env.get(('v', d, v.v.id))
        if v.k == 'arg':
            return p.env.get(('arg', d, v.v))
        if v.k == 'gvar':
            return ('ptr', ('g', v.v), 0)
        return None

    def fieldkey(self, v):
        q = place(v)
        if q and q[0] in self.classes:
            return (q[0], q[1])
        return None

    def read(self, v, p, w):
        k = self.fieldkey(v)
        if k is not None:
            if k in self.sticky and (self.when is None or self.when(p)):
                return self.sticky[k]
            return p.env.get(('f',) + k)
        a = self.val(v, p)
        if isinstance(a, tuple) and a[0] == 'ptr':
            if a[1][0] == 'g':
                return self.gread(a[1][1], a[2], w)
            return p.env.get(('m', a[1], a[2]))
        return None

    def gread(self, name, off, w):
        g = self.U.m.gvars.get(name)
        if g is None or off != 0 or g.init is None or g.init.k != 'cint':
            return None
        if not g.const:
            # constant if nothing in the unit stores to it and it is not visible outside
            if not self.U.gconst(name):
                return None
        return g.init.v & ((1 << g.init.ty.w) - 1)

    def setv(self, p, i, x):
        k = ('v', len(p.frames), i.id)
        if x is None:
            p.env.pop(k, None)
        else:
            p.env[k] = x

    def write(self, v, p, x):
        k = self.fieldkey(v)
        if k is not None:
            self.setf(p, ('f',) + k, x)
            return
        a = self.val(v, p)
        if isinstance(a, tuple) and a[0] == 'ptr':
            self.setf(p, ('m', a[1], a[2]), x)

    def setf(self, p, k, x):
        if x is None:
            p.env.pop(k, None)
        else:
            p.env[k] = x

    def clobber(self, p, root, lo=None, size=0):
        for k in [k for k in p.env if k[0] == 'm' and k[1] == root and (lo is None or lo <= k[2] < lo + size)]:
            del p.env[k]

    def cfg(self, fn):
        if fn.loops is None:
            irload.analyse_cfg(fn)
        return True

    def prune(self, p, fn, b, d):
        # loop phis keep their last value so that a change on the back edge can be seen
        if True:
            live = fn.live[b.id]
            keep = set(i.id for i in b.insts[:b.nphi])
            hp = self.headphis(fn)
            for k in [k for k in p.env if k[0] == 'v' and k[1] == d and k[2] not in live and k[2] not in keep and k[2] not in hp.get(b.id, ())]:
                del p.env[k]

    def headphis(self, fn):
        m = self.__dict__.setdefault('_hp', {})
        if fn.name not in m:
            r = {}
            bl = {b.id: b for b in fn.blocks}
            for h, body in fn.loops.items():
                ids = set(i.id for i in bl[h].insts[:bl[h].nphi])
                for x in body:
                    r.setdefault(x, set()).update(ids)
            m[fn.name] = r
        return m[fn.name]

    # ------------------------------------------------------------- run
    def start(self, fn, blk=None, idx=0, env=None, args=None):
        p = Path([(fn, blk or fn.entry, idx, None, None)], dict(env or {}))
        for a, x in (args or {}).items():
            p.env[('arg', 1, a)] = x
        return p

    def run(self, starts, visit):
        """visit(path, inst) -> None (go on), 'stop' (abandon the path), or 'hit' (report it).  Returns list of hits (inst, path)"""
        seen = set()
        todo = list(starts)
        hits = []
        n = 0
        while todo:
            p = todo.pop()
            fn, b, k, prev, ci = p.frames[-1]
            if k == 0 and prev is not None:
                # phis in parallel
                new = []
                for i in b.insts:
                    if i.op != 'phi':
                        break
                    x = None
                    for o, pb in zip(i.ops, i.x):
                        if pb is prev:
                            x = self.val(o, p)
                    new.append((i, x))
                d = len(p.frames)
                back = prev.rpo >= b.rpo if self.cfg(fn) else False
                for i, x in new:
                    if back and isint(x) and i.ty.k == 'int' and i.ty.w > 1 and p.env.get(('v', d, i.id), x) != x:
                        x = None
                    elif back and ('v', d, i.id) not in p.env and i.ty.k == 'int' and i.ty.w > 1:
                        x = None
                    self.setv(p, i, x)
                self.prune(p, fn, b, d)
            key = p.key()
            if key in seen:
                continue
            seen.add(key)
            n += 1
            if n > self.limit:
                raise TooBig()
            todo += self.block(p, visit, hits)
        self.states = n
        return hits

    def block(self, p, visit, hits):
        fn, b, k, prev, ci = p.frames[-1]
        j = k
        while j < len(b.insts):
            i = b.insts[j]
            if i.op == 'phi':
                j += 1
                continue
            r = visit(p, i)
            if r == 'stop':
                return []
            if r == 'hit':
                hits.append((i, p))
                return []
            op = i.op
            if op in ('call', 'invoke'):
                c = callee(i)
                if c and c.startswith('llvm.'):
                    if c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                        a = self.val(i.ops[0], p)
                        if isinstance(a, tuple) and a[0] == 'ptr':
                            self.clobber(p, a[1])
                    j += 1
                    continue
                if c and short(c) in PASS:
                    self.setv(p, i, self.val(i.ops[0], p))
                    if op == 'invoke':
                        return self.go(p, b, i.x['normal'])
                    j += 1
                    continue
                f = self.U.funcs.get(c) if c else None
                if f is not None and len(p.frames) < 8 and all(x[0] is not f for x in p.frames) and self.inline(f, i):
                    q = Path(list(p.frames), p.env, p.tag)
                    q.frames[-1] = (fn, b, j, prev, ci)
                    d = len(q.frames) + 1
                    for kk in [kk for kk in q.env if kk[0] in ('v', 'arg') and kk[1] >= d]:
                        del q.env[kk]
                    for a, o in enumerate(i.ops):
                        if o is not None:
                            x = self.val(o, p)
                            if x is None and o.k == 'inst':
                                x = self.ptrval(o, p)
                            if x is not None:
                                q.env[('arg', d, a)] = x
                    q.frames.append((f, f.entry, 0, None, i))
                    return [q]
                self.opaque(p, i, c)
                if op == 'invoke':
                    return self.go(p, b, i.x['normal'])
            elif op == 'ret':
                if len(p.frames) == 1:
                    return []
                x = self.val(i.ops[0], p) if i.ops else None
                d = len(p.frames)
                p.frames.pop()
                for kk in [kk for kk in p.env if kk[0] in ('v', 'arg') and kk[1] >= d or kk[0] == 'm' and kk[1][0] == 'a' and kk[1][1] >= d]:
                    del p.env[kk]
                f2, b2, j2, p2, c2 = p.frames[-1]
                call = b2.insts[j2]
                self.setv(p, call, x)
                post = self.on_return(p, call, visit, hits)
                if post:
                    return []
                if call.op == 'invoke':
                    return self.go(p, b2, call.x['normal'])
                p.frames[-1] = (f2, b2, j2 + 1, p2, c2)
                return [p]
            elif op == 'br':
                if not i.ops:
                    return self.go(p, b, i.succ[0])
                c = self.val(i.ops[0], p)
                if c is None or not (isint(c) or c == NZ):
                    return self.go(p, b, i.succ[0], i.ops[0], 1) + self.go(p, b, i.succ[-1], i.ops[0], 0)
                return self.go(p, b, i.succ[0] if c == NZ or c else i.succ[-1])
            elif op == 'switch':
                c = self.val(i.ops[0], p)
                if isint(c):
                    cases, default = self.switch(i)
                    return self.go(p, b, dict(cases).get(c, default))
                r = []
                for s in dict.fromkeys(b.succ):
                    r += self.go(p, b, s)
                return r
            elif op in ('unreachable', 'resume'):
                return []
            else:
                self.step(p, i)
            j += 1
        return []

    def on_return(self, p, call, visit, hits):
        return False

    def switch(self, i):
        return i.x

    def go(self, p, b, s, cond=None, val=None):
        q = Path(list(p.frames), dict(p.env), p.tag)
        f, _, _, _, ci = q.frames[-1]
        q.frames[-1] = (f, s, 0, b, ci)
        if cond is not None and cond.k == 'inst':
            q.env[('v', len(q.frames), cond.v.id)] = val
            self.learn(q, cond.v, val)
        return [q]

    def learn(self, p, i, val):
        """what a branch condition says about the value it was computed from"""
        d = len(p.frames)
        if i.op in ('trunc', 'zext', 'freeze') and i.ops[0].k == 'inst' and i.op != 'trunc':
            p.env[('v', d, i.ops[0].v.id)] = val
        if i.op == 'xor' and i.ops[1].k == 'cint' and i.ops[1].v & 1 and i.ops[0].k == 'inst':
            p.env[('v', d, i.ops[0].v.id)] = val ^ 1
            self.learn(p, i.ops[0].v, val ^ 1)

    def opaque(self, p, i, c):
        x = self.call_value(p, i, c)
        if c and (short(c).rsplit('::', 1)[-1] in ('wait', 'wait_for', 'wait_until', 'lock', 'unique_lock', 'lock_guard', 'scoped_lock')):
            # other threads may have changed the shared fields
            for k in [k for k in p.env if k[0] == 'f' and k not in self.pinned]:
                del p.env[k]
        if x is None and c:
            # comparisons and conversions of atomics
            if i.ops:
                q = place(i.ops[0])
                m = short(c).rsplit('::', 1)[-1]
                if q and (clsname(q[2]) or '').startswith('std::atomic'):
                    if m == 'load' or m.startswith('operator') and is_const(c):
                        x = self.read(i.ops[0], p, 0)
                    elif m in ('store', 'operator=') and len(i.ops) > 1:
                        self.write(i.ops[0], p, self.val(i.ops[1], p))
                    else:
                        self.write(i.ops[0], p, None)
        self.setv(p, i, x)
        if c and short(c).startswith('std::') and is_const(c):
            return
        for o in i.ops:
            if o is None:
                continue
            a = self.val(o, p)
            if isinstance(a, tuple) and a[0] == 'ptr' and not self.harmless(p, i, c):
                q = place(o)
                if q is not None and q[2] is not None and q[2].size:
                    self.clobber(p, a[1], a[2], q[2].size)
                else:
                    self.clobber(p, a[1])

    def harmless(self, p, i, c):
        return False

    def call_value(self, p, i, c):
        return None

    def ptrval(self, v, p):
        if v.k == 'inst' and v.v.op == 'alloca':
            return ('ptr', ('a', len(p.frames), v.v.id), 0)
        return self.val(v, p)

    def step(self, p, i):
        op = i.op
        if op == 'alloca':
            self.setv(p, i, ('ptr', ('a', len(p.frames), i.id), 0))
        elif op == 'load':
            self.setv(p, i, self.read(i.ops[0], p, i.ty.size if i.ty is not None else 0))
        elif op == 'store':
            self.write(i.ops[1], p, self.val(i.ops[0], p))
        elif op == 'getelementptr':
            a = self.val(i.ops[0], p)
            x = None
            if isinstance(a, tuple) and a[0] == 'ptr':
                off = self.gepoff(i, p)
                if off is not None:
                    x = ('ptr', a[1], a[2] + off)
            self.setv(p, i, x)
        elif op in ('trunc', 'zext', 'sext', 'freeze', 'bitcast'):
            a = self.val(i.ops[0], p)
            if isint(a) and i.ty.k == 'int':
                if op == 'sext':
                    w = i.ops[0].ty.w
                    if a >> (w - 1) & 1:
                        a -= 1 << w
                a &= (1 << i.ty.w) - 1
            elif a == NZ and op == 'trunc':
                a = None
            self.setv(p, i, a)
        elif op == 'icmp':
            self.setv(p, i, self.icmp(i.x, self.val(i.ops[0], p), self.val(i.ops[1], p), i.ops[0].ty))
        elif op in ('and', 'or', 'xor', 'add', 'sub', 'mul', 'shl', 'lshr'):
            a, b = self.val(i.ops[0], p), self.val(i.ops[1], p)
            w = i.ty.w if i.ty.k == 'int' else 64
            x = None
            if isint(a) and isint(b):
                x = {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a + b, 'sub': a - b, 'mul': a * b,
                     'shl': a << (b & 63), 'lshr': a >> (b & 63)}[op] & ((1 << w) - 1)
            elif op == 'and' and (a == 0 or b == 0):
                x = 0
            elif op == 'or' and w == 1 and (a == 1 or b == 1):
                x = 1
            elif op == 'or' and NZ in (a, b):
                x = NZ
            self.setv(p, i, x)
        elif op == 'select':
            c = self.val(i.ops[0], p)
            a, b = self.val(i.ops[1], p), self.val(i.ops[2], p)
            x = a if a == b else None
            if isint(c) or c == NZ:
                x = a if c else b
            self.setv(p, i, x)
        elif op in ('atomicrmw', 'cmpxchg'):
            self.write(i.ops[0], p, None)
            self.setv(p, i, None)
        else:
            self.setv(p, i, None)

    def gepoff(self, i, p):
        t = i.x
        off = 0
        for n, o in enumerate(i.ops[1:]):
            x = self.val(o, p)
            if not isint(x):
                return None
            if o.ty.k == 'int' and x >> (o.ty.w - 1) & 1:
                x -= 1 << o.ty.w
            if n == 0:
                off += x * t.size
            elif t.k == 'struct':
                off += t.offs[x]
                t = t.fields[x]
            elif t.k == 'array':
                off += x * t.elem.size
                t = t.elem
            else:
                return None
        return off

    def icmp(self, pr, a, b, ty):
        if a is None or b is None:
            return None
        if a == NZ or b == NZ:
            if b == 0 or a == 0:
                return {'eq': 0, 'ne': 1}.get(pr)
            return None
        if isint(a) and isint(b):
            w = ty.w if ty is not None and ty.k == 'int' else 64
            if pr[0] == 's':
                a = a - (1 << w) if a >> (w - 1) & 1 else a
                b = b - (1 << w) if b >> (w - 1) & 1 else b
            return int({'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b,
                        'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b}[pr])
        if isinstance(a, tuple) and isinstance(b, tuple) and a == b:
            return {'eq': 1, 'ne': 0}.get(pr)
        return None
