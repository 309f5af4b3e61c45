"""Static concurrency analysis of the stream classes: locksets, wakeups, shutdown, callback and error protocol.
Everything is computed from the LLVM IR of the current sources; lock and field identities are (class, byte offset)."""
import build
from irq import *
from explore import Explorer, TooBig, NZ

SYNC = ('std::mutex', 'std::condition_variable', 'std::_V2::condition_variable_any', 'std::atomic', 'std::atomic_flag',
        'std::__atomic_base', 'std::recursive_mutex', 'std::shared_mutex')
LOCKM = {'std::mutex::lock': 1, 'std::mutex::unlock': -1, 'std::__mutex_base::lock': 1, 'std::recursive_mutex::lock': 1,
         'std::recursive_mutex::unlock': -1}
GUARDS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')


def is_sync(t):
    n = clsname(t) or ''
    return any(n == s or n.startswith(s + '.') or n.startswith(s) and n[len(s):len(s) + 1] in ('', '.', '<') for s in SYNC)


class V:
    def __init__(self, where, msg):
        self.where, self.msg = where, msg


class StreamUnit(Unit):
    """all classes of namespace lib842 that own a mutex, found from their fields"""

    def __init__(self, path):
        super().__init__(path)
        self.classes = {}
        for f in self.funcs.values():
            for i in insts(f):
                t = None
                if i.op == 'getelementptr':
                    t = i.x
                elif i.op == 'alloca':
                    t = i.x
                n = clsname(t)
                if n and n.startswith('lib842::') and n not in self.classes and t.offs:
                    self.classes[n] = t
        self.sclasses = {n: t for n, t in self.classes.items()
                         if any(clsname(x) == 'std::mutex' for x in t.fields)}
        self.barriers = set()
        self.access_memo = {}
        self.roots()
        self.locks()

    # -------------------------------------------------- functions and roles
    def cls_of(self, fn):
        s = short(fn.name)
        for c in self.sclasses:
            if s.startswith(c + '::'):
                return c
        return None

    def method(self, fn):
        s = short(fn.name)
        c = self.cls_of(fn)
        return s[len(c) + 2:] if c else None

    def is_ctor(self, fn):
        c = self.cls_of(fn)
        return c is not None and self.method(fn) == c.split('::')[-1]

    def is_dtor(self, fn):
        c = self.cls_of(fn)
        return c is not None and self.method(fn) == '~' + c.split('::')[-1]

    def callees(self, fn):
        for i in insts(fn):
            if i.op in ('call', 'invoke'):
                c = callee(i)
                if c in self.funcs:
                    yield i, self.funcs[c]
            # lambdas and functions passed by value are entered through template code, which calls them directly

    def closure(self, roots):
        seen, st = set(), list(roots)
        while st:
            f = st.pop()
            if f.name in seen:
                continue
            seen.add(f.name)
            st += [g for _, g in self.callees(f)]
        return seen

    def roots(self):
        taken = set()

        def walk(v, d=0):
            if v is None or d > 8:
                return
            if v.k == 'func':
                taken.add(v.v)
            elif v.k == 'cexpr':
                for x in v.x[0]:
                    walk(x, d + 1)
            elif v.k == 'agg':
                for x in v.v:
                    walk(x, d + 1)
        for f in self.funcs.values():
            for i in insts(f):
                for o in i.ops:
                    if o is not None:
                        walk(o)
        self.taken = taken
        wr = []
        for n in taken:
            f = self.funcs.get(n)
            if f is not None and self.cls_of(f) and f.name not in self.callers:
                wr.append(f)
        for n, f in self.funcs.items():
            if short(n) == 'std::thread::_State_impl::_M_run':
                wr.append(f)
        self.worker_roots = wr
        self.worker = self.closure(wr)
        self.api_roots = [f for f in self.funcs.values() if self.cls_of(f) and f.name not in self.callers
                          and f.name not in self.worker]
        self.api = self.closure(self.api_roots)
        # functions of a class only called from ctor/dtor etc. are in api through the closure

    # -------------------------------------------------- locksets
    def locks(self):
        self.entry = {}        # fn -> (held frozenset, {arg: (lock, held)})
        self.at = {}           # (fn, inst id) -> frozenset of locks held before it
        self.garg = {}
        work = []
        for f in self.funcs.values():
            if f.name not in self.callers or f in self.worker_roots or f in self.api_roots or f.name in self.taken:
                self.entry[f.name] = (frozenset(), {})
                work.append(f.name)
        n = 0
        while work:
            n += 1
            if n > 20000:
                raise RuntimeError("lockset analysis did not terminate")
            self.lock_fn(self.funcs[work.pop()], work)

    def lock_fn(self, fn, work):
        held0, gargs = self.entry[fn.name]
        init = ({k: v for k, v in [(('arg', a), g) for a, g in gargs.items()]}, held0)
        st = {fn.entry.id: init}
        todo = [fn.entry]
        calls = {}
        rounds = 0
        while todo:
            rounds += 1
            if rounds > 5000:
                raise RuntimeError("lockset fixpoint")
            b = todo.pop()
            g, h = dict(st[b.id][0]), st[b.id][1]
            for i in b.insts:
                cur = h | frozenset(l for l, x in g.values() if x and l is not None)
                self.at[(fn.name, i.id)] = cur
                if i.op in ('call', 'invoke'):
                    g, h = self.lock_call(fn, i, g, h, cur, calls)
            for s in b.succ:
                old = st.get(s.id)
                if old is None:
                    new = (dict(g), h)
                else:
                    ng = {}
                    for k, (l, x) in old[0].items():
                        if k in g and g[k][0] == l:
                            ng[k] = (l, x and g[k][1])
                    new = (ng, old[1] & h)
                if old is None or new != old:
                    st[s.id] = new
                    todo.append(s)
        for c, (h, ga) in calls.items():
            old = self.entry.get(c)
            if old is None:
                self.entry[c] = (h, ga)
                work.append(c)
            else:
                nh = old[0] & h
                nga = {a: x for a, x in old[1].items() if ga.get(a) == x}
                if (nh, nga) != old:
                    self.entry[c] = (nh, nga)
                    work.append(c)

    def gkey(self, v):
        r = root(v)
        if r.k == 'inst':
            return ('v', r.v.id)
        if r.k == 'arg':
            return ('arg', r.v)
        return None

    def lockid(self, v):
        p = place(v)
        return (p[0], p[1]) if p else None

    def lock_call(self, fn, i, g, h, cur, calls):
        c = callee(i)
        if c is None:
            return g, h
        s = short(c)
        cls = s.rsplit('::', 1)[0]
        name = s.rsplit('::', 1)[1] if '::' in s else s
        if cls in GUARDS:
            k = self.gkey(i.ops[0])
            if name == cls.split('::')[-1]:
                d = dm(c)
                if len(i.ops) == 1 or '&&' in d.split('(', 1)[1]:
                    g = dict(g)
                    g[k] = (None, False)
                    if len(i.ops) == 2:
                        k2 = self.gkey(i.ops[1])
                        g[k] = g.get(k2, (None, False))
                        g[k2] = (None, False)
                    return g, h
                g = dict(g)
                ok = not ('defer_lock' in d or 'try_to_lock' in d)
                g[k] = (self.lockid(i.ops[1]), ok)
                return g, h
            if name.startswith('~'):
                g = dict(g)
                g.pop(k, None)
                return g, h
            if name in ('lock', 'unlock') and k in g:
                g = dict(g)
                g[k] = (g[k][0], name == 'lock')
                return g, h
            if name in ('owns_lock', 'mutex', 'operator bool'):
                return g, h
            if k in g:          # release/swap/operator=: nothing is known to be held through it any more
                g = dict(g)
                g[k] = (g[k][0], False)
            return g, h
        if s in LOCKM:
            l = self.lockid(i.ops[0])
            if l is not None:
                h = h | {l} if LOCKM[s] > 0 else h - {l}
                if LOCKM[s] < 0:
                    g = {k: (a, x and a != l) for k, (a, x) in g.items()}
            return g, h
        if c in self.funcs:
            ga = {}
            for a, o in enumerate(i.ops):
                k = self.gkey(o) if o is not None else None
                if k in g:
                    ga[a] = g[k]
            base = frozenset(cur)
            # locks held through guards whose guard is passed down stay tied to that argument
            hh = base - frozenset(x[0] for x in ga.values())
            old = calls.get(c)
            if old is None:
                calls[c] = (hh, ga)
            else:
                calls[c] = (old[0] & hh, {a: x for a, x in old[1].items() if ga.get(a) == x})
        return g, h

    # -------------------------------------------------- field accesses
    def accesses(self, fn):
        """(inst, (class, off), 'r'|'w'|'rw', const-or-None) for fields of the classes under analysis"""
        r = self.access_memo.get(fn.name)
        if r is not None:
            return r
        r = []
        for i in insts(fn):
            if i.op == 'load':
                p = place(i.ops[0])
                if p and p[0] in self.sclasses:
                    r.append((i, p, 'r', None))
            elif i.op == 'store':
                p = place(i.ops[1])
                if p and p[0] in self.sclasses:
                    r.append((i, p, 'w', i.ops[0].v if i.ops[0].k == 'cint' else None))
                p = place(i.ops[0])
                if p and p[0] in self.sclasses:
                    r.append((i, p, 'esc', None))
            elif i.op in ('atomicrmw', 'cmpxchg'):
                p = place(i.ops[0])
                if p and p[0] in self.sclasses:
                    r.append((i, p, 'atomic', None))
            elif i.op in ('call', 'invoke'):
                c = callee(i)
                if c and short(c) in PASS:
                    continue
                if c and c.startswith('llvm.dbg'):
                    continue
                for a, o in enumerate(i.ops):
                    p = place(o)
                    if not p or p[0] not in self.sclasses:
                        continue
                    k, cv = 'rw', None
                    if c:
                        d = dm(c)
                        if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove'):
                            k = 'w' if a == 0 else 'r'
                        elif a == 0 and is_const(c):
                            k = 'r'
                        elif re.search(r'\bconst ?[&*]$', param_of(i, a) or ''):
                            k = 'r'
                        m = short(c).rsplit('::', 1)[-1]
                        if clsname(p[2]) and clsname(p[2]).startswith('std::atomic'):
                            if a == 0 and (m in ('operator=', 'store') and len(i.ops) > 1):
                                k = 'w'
                                cv = i.ops[1].v if i.ops[1].k == 'cint' else None
                            elif a == 0 and (m.startswith('operator') and is_const(c) or m == 'load'):
                                k = 'r'
                    r.append((i, p, k, cv))
        self.access_memo[fn.name] = r
        return r

    def field(self, p):
        return "%s::%s" % (p[0].split('::')[-1], self.fname(p[0], p[1]))

    def relevant(self):
        for f in self.funcs.values():
            if f.name in self.worker or f.name in self.api:
                yield f

    # -------------------------------------------------- waits and predicates
    NOTIFY = {'std::condition_variable::notify_all': 'all', 'std::condition_variable::notify_one': 'one',
              'std::_V2::condition_variable_any::notify_all': 'all', 'std::_V2::condition_variable_any::notify_one': 'one'}

    def is_wait(self, i):
        if i.op not in ('call', 'invoke'):
            return False
        c = callee(i)
        if not c:
            return False
        s = short(c)
        return s.startswith('std::') and 'condition_variable' in s and s.rsplit('::', 1)[1] in ('wait', 'wait_for', 'wait_until') \
            and not short(i.fn.name).startswith('std::')

    def waits(self):
        r = getattr(self, '_waits', None)
        if r is None:
            r = self._waits = [Wait(self, f, i) for f in self.relevant() for i in insts(f) if self.is_wait(i)]
        return r

    def loops(self, fn):
        """block id -> list of (header, body set) of natural loops containing it, innermost first"""
        r = getattr(fn, '_nl', None) if hasattr(fn, '__dict__') else self.__dict__.setdefault('_nlmemo', {}).get(fn.name)
        if r is None:
            _, idom = irload.dominators(fn)
            ls = []
            heads = {}
            for b in fn.blocks:
                for s in b.succ:
                    if irload.dominates(idom, s, b):
                        heads.setdefault(s.id, (s, []))[1].append(b)
            for s, tails in heads.values():
                body = {s}
                st = list(tails)
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st += x.pred
                ls.append((s, body))
            ls.sort(key=lambda x: len(x[1]))
            r = ls
            self.__dict__.setdefault('_nlmemo', {})[fn.name] = r
        return r

    def loops_of(self, blk):
        return [l for l in self.loops(blk.fn) if blk in l[1]]

    def field_source(self, v, depth=0):
        """(place, negations, kind) if v is computed from one field load / accessor call by casts, compares with 0 and nots"""
        if depth > 12 or v is None or v.k != 'inst':
            return None
        i = v.v
        if i.op == 'load':
            p = place(i.ops[0])
            if p:
                return (p, 0, 'val', i)
            return None
        if i.op in ('call', 'invoke'):
            c = callee(i)
            if c and i.ops:
                p = place(i.ops[0])
                if p and p[0] in self.sclasses:
                    m = short(c).rsplit('::', 1)[-1]
                    return (p, 0, 'val' if m == 'load' or m.startswith('operator') else m, i)
            return None
        if i.op in ('trunc', 'zext', 'sext', 'freeze'):
            return self.field_source(i.ops[0], depth + 1)
        if i.op == 'and' and i.ops[1].k == 'cint' and i.ops[1].v == 1:
            return self.field_source(i.ops[0], depth + 1)
        if i.op == 'xor' and i.ops[1].k == 'cint' and i.ops[1].v & 1:
            r = self.field_source(i.ops[0], depth + 1)
            return r and (r[0], r[1] + 1, r[2], r[3])
        if i.op == 'icmp' and i.ops[1].k == 'cint' and i.x in ('eq', 'ne'):
            r = self.field_source(i.ops[0], depth + 1)
            if r is None:
                return None
            z = i.ops[1].v
            if z == 0:
                return (r[0], r[1] + (i.x == 'eq'), r[2], r[3])
            if z == 1:
                return (r[0], r[1] + (i.x == 'ne'), r[2], r[3])
        return None

    def fields_read(self, names):
        r = set()
        for n in names:
            f = self.funcs.get(n)
            if f is not None:
                for i, p, k, cv in self.accesses(f):
                    if not is_sync(p[2]) or (clsname(p[2]) or '').startswith('std::atomic'):
                        r.add((p[0], p[1]))
        return r

    # -------------------------------------------------- path queries (normal control flow; unwinding is not followed)
    def nsucc(self, b):
        t = b.insts[-1]
        if t.op == 'invoke':
            return [t.x['normal']]
        if t.op == 'unreachable':
            return []
        return list(b.succ)

    def path_avoiding(self, i, stop, goal=None, start_after=True):
        """is there a path from i (exclusive) to a goal (default: return) on which no instruction satisfies stop? -> inst or None"""
        seen = set()
        st = [(i.bb, i.idx + (1 if start_after else 0))]
        while st:
            b, k = st.pop()
            blocked = False
            for j in b.insts[k:]:
                if goal is not None and goal(j):
                    return j
                if stop(j):
                    blocked = True
                    break
                if goal is None and j.op == 'ret':
                    return j
            if blocked:
                continue
            for s in self.nsucc(b):
                if s not in seen:
                    seen.add(s)
                    st.append((s, 0))
        return None

    def path_from_entry_avoiding(self, fn, stop, target):
        seen = set()
        st = [fn.entry]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            blocked = False
            for j in b.insts:
                if j is target:
                    return True
                if stop(j):
                    blocked = True
                    break
            if not blocked:
                st += self.nsucc(b)
        return False

    def must(self, fn, pred, memo=None, depth=0):
        """does every normal path through fn execute an instruction (possibly in callees) satisfying pred?"""
        if memo is None:
            memo = {}
        if fn.name in memo:
            return memo[fn.name]
        memo[fn.name] = False

        def stop(j):
            if pred(j):
                return True
            if j.op in ('call', 'invoke') and depth < 12:
                c = callee(j)
                if c in self.funcs:
                    return self.must(self.funcs[c], pred, memo, depth + 1)
            return False
        e = fn.entry.insts[0]
        memo[fn.name] = self.path_avoiding(e, stop, start_after=False) is None
        return memo[fn.name]

    def notify_pred(self, cv, kinds=('all',)):
        def p(j):
            if j.op not in ('call', 'invoke'):
                return False
            c = callee(j)
            if not c:
                return False
            k = self.NOTIFY.get(short(c))
            if k not in kinds:
                return False
            q = place(j.ops[0])
            return q is not None and (q[0], q[1]) == cv
        return p

    def followed_by(self, i, pred, up=0):
        """after i every normal path reaches pred (in callees, or in every caller after the call)"""
        memo = {}

        def stop(j):
            if pred(j):
                return True
            if j.op in ('call', 'invoke'):
                c = callee(j)
                if c in self.funcs:
                    return self.must(self.funcs[c], pred, memo)
            return False
        if self.path_avoiding(i, stop) is None:
            return True
        cs = [c for c in self.callers.get(i.fn.name, []) if c.fn.name in self.worker or c.fn.name in self.api]
        if cs and up < 6 and i.fn not in self.worker_roots:
            return all(self.followed_by(c, pred, up + 1) for c in cs)
        return False

    def preceded_by(self, i, pred, since):
        """every path from the latest `since` point (lock acquisition) to i passes pred"""
        memo = {}

        def stop(j):
            if pred(j):
                return True
            if j.op in ('call', 'invoke'):
                c = callee(j)
                if c in self.funcs:
                    return self.must(self.funcs[c], pred, memo)
            return False
        ok = False
        for j in insts(i.fn):
            if since(j):
                ok = True
                if self.path_avoiding(j, stop, goal=lambda x: x is i) is not None:
                    return False
        return ok

    # -------------------------------------------------- exemptions
    def starts_thread(self, j):
        if j.op not in ('call', 'invoke'):
            return False
        c = callee(j)
        if not c:
            return False
        memo = self.__dict__.setdefault('_stmemo', {})
        if c not in memo:
            memo[c] = False
            d = '_M_start_thread' in c
            if not d and c in self.funcs:
                d = any(self.starts_thread(x) for x in insts(self.funcs[c]))
            memo[c] = d
        return memo[c]

    def joins_thread(self, j):
        if j.op not in ('call', 'invoke'):
            return False
        c = callee(j)
        if not c:
            return False
        memo = self.__dict__.setdefault('_jtmemo', {})
        if c not in memo:
            memo[c] = False
            d = short(c) == 'std::thread::join'
            if not d and c in self.funcs:
                d = any(self.joins_thread(x) for x in insts(self.funcs[c]))
            memo[c] = d
        return memo[c]

    def exempt(self, fn, i):
        if self.is_ctor(fn):
            r = self.__dict__.setdefault('_ctor', {}).get(fn.name)
            if r is None:
                # instructions executable after a thread exists, along normal control flow
                after = set()
                st = []
                for j in insts(fn):
                    if self.starts_thread(j):
                        k = j.idx + 1
                        if j.op == 'invoke':
                            st.append((j.x['normal'], 0))
                        else:
                            st.append((j.bb, k))
                seen = set()
                while st:
                    b, k = st.pop()
                    for j in b.insts[k:]:
                        after.add(j.id)
                    for s in self.nsucc(b):
                        if s not in seen:
                            seen.add(s)
                            st.append((s, 0))
                r = self._ctor[fn.name] = after
            return i.id not in r
        if self.is_dtor(fn):
            js = [j for j in insts(fn) if self.joins_thread(j)]
            if not js:
                return not any(clsname(t) == 'std::vector' and False for t in ()) and self.cls_of(fn).startswith('lib842::detail')
            _, idom = irload.dominators(fn)
            for j in js:
                ls = self.loops_of(j.bb)
                h = ls[-1][0] if ls else j.bb
                body = ls[-1][1] if ls else {j.bb}
                if i.bb in body or not irload.dominates(idom, h, i.bb):
                    # unwinding paths after the joins started are fine too
                    return False
            return True
        return False


class Wait:
    def __init__(self, U, fn, i):
        self.U, self.fn, self.inst = U, fn, i
        p = place(i.ops[0])
        self.cv = (p[0], p[1]) if p else None
        self.lock = None
        c = callee(i)
        self.pred_fn = None
        f = U.funcs.get(c)
        self.pred = set()
        self.loop = None
        k = U.gkey(i.ops[1]) if len(i.ops) > 1 else None
        self.gkey = k
        if f is not None and short(c).startswith('std::') and len(i.ops) > 2:
            for n in U.closure([f]):
                s = short(n)
                if not s.startswith('std::') and s.endswith('operator()'):
                    self.pred_fn = U.funcs[n]
            self.pred = U.fields_read(U.closure([self.pred_fn])) if self.pred_fn else set()
        else:
            ls = U.loops_of(i.bb)
            if ls:
                self.loop = ls[0]
                names = set()
                for b in ls[0][1]:
                    for j in b.insts:
                        if j.op in ('call', 'invoke') and callee(j) in U.funcs and not U.is_wait(j):
                            names |= U.closure([U.funcs[callee(j)]])
                r = U.fields_read(n for n in names)
                ids = set(b.id for b in ls[0][1])
                for j, p, k2, cv in U.accesses(fn):
                    if j.bb.id in ids and k2 in ('r', 'rw') and (not is_sync(p[2]) or (clsname(p[2]) or '').startswith('std::atomic')):
                        r.add((p[0], p[1]))
                self.pred = r

    def truth(self):
        """atoms and evaluation function of the predicate: (atoms, eval(assignment)->set of results)"""
        U = self.U
        if self.pred_fn is not None:
            fn = self.pred_fn
            return BoolFn(U, fn)
        if self.loop is not None:
            return LoopCond(U, self)
        return None


class BoolFn:
    """a predicate function seen as a boolean function of its atoms (field truth values, accessor results, comparisons)"""

    def __init__(self, U, fn):
        self.U, self.fn = U, fn
        self.atoms = {}
        self.unknown = False
        for b in fn.blocks:
            for i in b.insts:
                if i.op in ('br', 'ret') and i.ops:
                    self.collect(i.ops[0])

    def key(self, v):
        s = self.U.field_source(v)
        if s is not None and s[0][0] in self.U.sclasses:
            return ((s[0][0], s[0][1]), s[2]), s[1] & 1
        return None

    def collect(self, v, d=0):
        if v.k != 'inst' or d > 20:
            return
        k = self.key(v)
        if k is not None:
            self.atoms[k[0]] = 1
            return
        i = v.v
        if i.op in ('phi', 'and', 'or', 'xor', 'select', 'zext', 'trunc', 'freeze'):
            for o in i.ops:
                self.collect(o, d + 1)
        elif i.op in ('call', 'invoke') and callee(i) in self.U.funcs and not short(callee(i)).startswith('std::'):
            self.atoms[('call', i.id)] = 1
        else:
            self.atoms[('op', i.id)] = 1

    def fields_of_atom(self, k):
        return {k[0]} if k[0] not in ('op', 'call') else set()

    def ev(self, v, env, prev, d=0):
        if v.k == 'cint':
            return v.v & 1
        if v.k != 'inst' or d > 30:
            return None
        k = self.key(v)
        if k is not None:
            return env[k[0]] ^ k[1]
        i = v.v
        if i.op == 'phi':
            for o, b in zip(i.ops, i.x):
                if b is prev.get(i.bb.id):
                    return self.ev(o, env, prev, d + 1)
            return None
        if i.op in ('zext', 'trunc', 'freeze'):
            return self.ev(i.ops[0], env, prev, d + 1)
        if i.op == 'select':
            c = self.ev(i.ops[0], env, prev, d + 1)
            return self.ev(i.ops[1] if c else i.ops[2], env, prev, d + 1)
        if i.op in ('and', 'or', 'xor'):
            a, b = self.ev(i.ops[0], env, prev, d + 1), self.ev(i.ops[1], env, prev, d + 1)
            if a is None or b is None:
                return None
            return a & b if i.op == 'and' else a | b if i.op == 'or' else a ^ b
        if ('op', i.id) in env:
            return env[('op', i.id)]
        if ('call', i.id) in env:
            return env[('call', i.id)]
        return None

    def run(self, env):
        b = self.fn.entry
        prev = {}
        for _ in range(200):
            t = b.insts[-1]
            if t.op == 'ret':
                return self.ev(t.ops[0], env, prev)
            if t.op == 'br' and t.ops:
                c = self.ev(t.ops[0], env, prev)
                if c is None:
                    return None
                n = t.succ[0] if c else t.succ[-1]
            elif t.op in ('br', 'invoke'):
                n = self.U.nsucc(b)[0]
            else:
                return None
            prev[n.id] = b
            b = n
        return None

    def table(self):
        ks = sorted(self.atoms, key=str)
        if len(ks) > 10:
            return ks, None
        t = {}
        for m in range(1 << len(ks)):
            env = {k: (m >> j) & 1 for j, k in enumerate(ks)}
            t[m] = self.run(env)
        return ks, t


class LoopCond(BoolFn):
    """`while (!cond) cv.wait(lock)`: the predicate is `the loop is left`"""

    def __init__(self, U, w):
        self.U, self.w = U, w
        self.fn = w.fn
        self.atoms = {}
        for b in w.loop[1]:
            t = b.insts[-1]
            if t.op == 'br' and t.ops:
                self.collect(t.ops[0])

    def run(self, env):
        head, body = self.w.loop
        # start right after the wait
        b = self.w.inst.bb
        prev = {}
        first = True
        for _ in range(200):
            t = b.insts[-1]
            if not first and b is self.w.inst.bb:
                return 0
            if t.op == 'br' and t.ops:
                c = self.ev(t.ops[0], env, prev)
                if c is None:
                    return None
                n = t.succ[0] if c else t.succ[-1]
            else:
                ns = self.U.nsucc(b)
                if not ns:
                    return None
                n = ns[0]
            if n not in body:
                return 1
            prev[n.id] = b
            b = n
            first = False
            if b is self.w.inst.bb:
                # entering the wait again: but conditions inside that block are evaluated before the wait
                return 0
        return None


# ====================================================================== decisions
def fld(U, p):
    return U.field((p[0], p[1], None))


class Roles:
    """roles of the boolean/trigger fields of one stream class, derived from how predicates use and methods write them"""

    def __init__(self, U, cls):
        self.U, self.cls = U, cls
        self.quit, self.fin, self.trig = set(), set(), set()
        preds = set()
        for w in U.waits():
            if w.fn.name in U.worker:
                preds |= set(p for p in w.pred if p[0] == cls)
        true_d, true_a, false_w, other_a = set(), set(), set(), set()
        for f in U.relevant():
            dt = U.is_dtor(f) or f.name in U.closure([x for x in U.api_roots if U.is_dtor(x)])
            for i, p, k, cv in U.accesses(f):
                q = (p[0], p[1])
                if q not in preds or U.exempt(f, i):
                    continue
                if k == 'w':
                    if cv == 1 and dt:
                        true_d.add(q)
                    elif cv == 1 and f.name in U.api:
                        true_a.add(q)
                    elif cv == 0 and f.name in U.worker:
                        false_w.add(q)
                    elif cv is None and f.name in U.api:
                        other_a.add(q)
        self.preds = preds
        self.quit = true_d - false_w - other_a
        self.fin = true_a - self.quit
        self.trig = other_a - self.quit - self.fin


def stream_classes(U):
    return [c for c in U.sclasses if any(short(x.name).startswith(c + '::') for x in U.worker_roots)]


def phases(U, cls, roles):
    """typestate of the worker code: 0 before start, 1 operation running, 2 finalisation requested, 3 all workers done.
    -> {(fn, inst id): set of phases}"""
    at = {}
    entry = {}
    summ = {}
    for r in U.worker_roots:
        if U.cls_of(r) == cls:
            entry[r.name] = {0}
    changed = True
    rounds = 0

    def event(fn, i):
        if U.is_wait(i):
            w = next(x for x in U.waits() if x.inst is i)
            if w.pred & roles.trig:
                return 'T'
            if w.pred & roles.fin:
                return 'F'
            return None
        if i.op in ('call', 'invoke'):
            c = callee(i)
            if c in U.funcs and i.ops:
                p = place(i.ops[0])
                g = U.funcs[c]
                if p and p[0] == cls and U.cls_of(g) not in (None, cls) and \
                        any(w.fn.name in U.closure([g]) for w in U.waits()):
                    return 'B'
        return None
    T = {'T': lambda s: {1}, 'F': lambda s: {2 if x == 1 else x for x in s}, 'B': lambda s: {3 if x == 2 else x for x in s}}
    while changed and rounds < 50:
        changed = False
        rounds += 1
        for n in list(entry):
            fn = U.funcs[n]
            st = {fn.entry.id: set(entry[n])}
            todo = [fn.entry]
            out = set()
            while todo:
                b = todo.pop()
                s = set(st[b.id])
                for i in b.insts:
                    o = at.setdefault((n, i.id), set())
                    o |= s
                    e = event(fn, i)
                    if e:
                        s = T[e](s)
                    elif i.op in ('call', 'invoke'):
                        c = callee(i)
                        if c in U.funcs and (U.cls_of(U.funcs[c]) == cls or not short(c).startswith(('std::', '__'))):
                            en = entry.setdefault(c, set())
                            if not s <= en:
                                en |= s
                                changed = True
                            if c in summ:
                                s = set().union(*[summ[c].get(x, {x}) for x in s]) if False else set(summ[c]) if touches(U, c, event) else s
                            elif touches(U, c, event):
                                s = set()
                        elif c in U.funcs:
                            # template code that calls back into lambdas of the class: analysed with the same phase
                            for m in U.closure([U.funcs[c]]):
                                if not short(m).startswith(('std::', '__')) and m != n:
                                    en = entry.setdefault(m, set())
                                    if not s <= en:
                                        en |= s
                                        changed = True
                    if i.op == 'ret':
                        out |= s
                for x in b.succ:
                    o = st.get(x.id)
                    if o is None or not s <= o:
                        st[x.id] = s | (o or set())
                        todo.append(x)
            if summ.get(n) != out:
                summ[n] = out
                changed = True
    return at


def touches(U, c, event, memo=None):
    memo = U.__dict__.setdefault('_touch', {})
    if c not in memo:
        memo[c] = False
        f = U.funcs[c]
        memo[c] = any(event(f, i) for i in insts(f)) or any(
            touches(U, callee(i), event) for i in insts(f) if i.op in ('call', 'invoke') and callee(i) in U.funcs
            and not short(callee(i)).startswith('std::'))
    return memo[c]


def check_races(U, rep):
    """every access to a field two threads can reach is ordered by a common lock, by an atomic, or by the start/finalise hand-over"""
    for cls in U.sclasses:
        acc = {}
        for f in U.relevant():
            for i, p, k, cv in U.accesses(f):
                if p[0] != cls or U.exempt(f, i):
                    continue
                t = clsname(p[2]) or ''
                if is_sync(p[2]) or k == 'atomic':
                    continue
                if t in U.sclasses:        # an object with its own lock, used through its methods
                    continue
                acc.setdefault((p[0], p[1]), []).append((f, i, k, U.at.get((f.name, i.id), frozenset())))
        isstream = cls in stream_classes(U)
        roles = Roles(U, cls) if isstream else None
        ph = phases(U, cls, roles) if isstream else {}
        for p, l in sorted(acc.items()):
            w = [x for x in l if x[2] != 'r']
            inw = [x for x in l if x[0].name in U.worker]
            rep.obligation("field %s: %d accesses, %d writes, %d in worker code" % (fld(U, p), len(l), len(w), len(inw)))
            if not w or (isstream and not inw):
                continue
            common = frozenset.intersection(*[x[3] for x in l])
            if any(a[0] == cls for a in common):
                continue
            if not isstream:
                bad = [x for x in l if not any(a[0] == cls for a in x[3])]
                for f, i, k, h in bad:
                    rep.violation(i, "%s of %s without the lock of its object" % ('read' if k == 'r' else 'write', fld(U, p)))
                continue
            unl = [x for x in l if not x[3]]
            for f, i, k, h in l:
                isw = k != 'r'
                if f.name in U.worker:
                    s = ph.get((f.name, i.id), set())
                    if not h and isw:
                        rep.violation(i, "worker thread writes %s without holding a lock (other threads read it)" % fld(U, p))
                    elif not h and not s <= {1, 2}:
                        rep.violation(i, "worker thread reads %s without a lock outside the start..finalise window" % fld(U, p))
                    elif h and isw and any(x[0].name in U.worker for x in unl) and not s <= {3}:
                        rep.violation(i, "%s is written while other workers may still read it without the lock" % fld(U, p))
                if f.name in U.api and not h:
                    root = f
                    has_lock = any(U.at.get((f.name, j.id)) for j in insts(f))
                    pub = [j for j, q, kk, _ in U.accesses(f) if (q[0], q[1]) in roles.trig and kk != 'r']
                    pubc = [j for j in insts(f) if j.op in ('call', 'invoke') and callee(j) in U.funcs and
                            any((q[0], q[1]) in roles.trig and kk != 'r' for n in U.closure([U.funcs[callee(j)]])
                                for _, q, kk, _ in U.accesses(U.funcs[n]))]
                    pub += pubc
                    if U.is_dtor(f) or U.is_ctor(f):
                        rep.violation(i, "%s of %s without the lock while worker threads may be running" % ('write' if isw else 'read', fld(U, p)))
                    elif pub:
                        # must come before the trigger is raised
                        if any(U.path_avoiding(j, lambda x: False, goal=lambda x: x is i) is not None for j in pub):
                            rep.violation(i, "%s is accessed without the lock after the workers were released" % fld(U, p))
                    elif has_lock or any(callee(j) in U.funcs and any(U.NOTIFY.get(short(c2)) for c2 in U.closure([U.funcs[callee(j)]]))
                                         for j in insts(f) if j.op in ('call', 'invoke')):
                        rep.violation(i, "%s of %s outside the lock in an operation that runs concurrently with the workers"
                                      % ('write' if isw else 'read', fld(U, p)))
                    else:
                        # configuration setter or private helper: every caller must be a setter as well
                        callers = U.callers.get(f.name, [])
                        for c in callers:
                            if c.fn.name in U.api and U.at.get((c.fn.name, c.id)) == frozenset() and any(U.at.get((c.fn.name, j.id)) for j in insts(c.fn)):
                                pubc = [j for j, q, kk, _ in U.accesses(c.fn) if (q[0], q[1]) in roles.trig and kk != 'r']
                                if not pubc or any(U.path_avoiding(j, lambda x: False, goal=lambda x: x is c) is not None for j in pubc):
                                    rep.violation(c, "call reaches an unlocked access to %s" % fld(U, p))


def check_lock_order(U, rep):
    edges = {}
    for f in U.relevant():
        for i in insts(f):
            if i.op not in ('call', 'invoke'):
                continue
            c = callee(i)
            h = U.at.get((f.name, i.id), frozenset())
            if not c:
                continue
            s = short(c)
            cls = s.rsplit('::', 1)[0]
            acq = None
            if cls in GUARDS and s == cls + '::' + cls.split('::')[-1] and len(i.ops) > 1 and '&&' not in dm(c).split('(', 1)[1]:
                acq = [U.lockid(i.ops[1])]
                if cls == 'std::scoped_lock':
                    acq = [U.lockid(o) for o in i.ops[1:]]
            elif s in LOCKM and LOCKM[s] > 0 and not short(f.name).startswith('std::'):
                acq = [U.lockid(i.ops[0])]
            if acq:
                for a in acq:
                    if a is None:
                        continue
                    rep.obligation("lock %s acquired at %s holding %s" % (fld(U, a), loc(i), sorted(fld(U, x) for x in h)))
                    if a in h:
                        rep.violation(i, "acquires %s while already holding it (self deadlock)" % fld(U, a))
                    for b in h:
                        edges.setdefault(b, {}).setdefault(a, i)
            if U.is_wait(i):
                w = next(x for x in U.waits() if x.inst is i)
                others = [x for x in h if x[0] != (w.cv[0] if w.cv else None)]
                if others:
                    rep.violation(i, "waits on a condition variable while holding %s" % fld(U, others[0]))
            if s == 'std::thread::join' and h:
                rep.violation(i, "joins a thread while holding %s" % fld(U, sorted(h)[0]))
            if s == 'std::function::operator()' and h:
                rep.violation(i, "user callback invoked while holding %s" % fld(U, sorted(h)[0]))
            if s == 'std::function::operator()':
                rep.obligation("callback at %s runs without a lock" % loc(i))
    # cycles
    for a in edges:
        seen, st = set(), [(x, [a, x]) for x in edges[a]]
        while st:
            x, path = st.pop()
            if x == a:
                rep.violation(edges[path[-2]][a], "lock order cycle %s" % ' -> '.join(fld(U, y) for y in path))
                break
            if x in seen:
                continue
            seen.add(x)
            st += [(y, path + [y]) for y in edges.get(x, ())]


SHRINK = ('pop', 'clear', 'front', 'back', 'empty', 'size', 'begin', 'end', 'top')
GROW = ('push', 'emplace', 'push_back', 'emplace_back', 'push_front', 'insert')


def enabling(U, w, tab, fn, i, p, k, cv):
    """can this write turn the predicate of wait w from false to true? -> None / 'set' / 'grow'"""
    q = (p[0], p[1])
    if q not in w.pred or k in ('r', 'esc'):
        return None
    ks, t = tab
    mine = [j for j, a in enumerate(ks) if a[0] == q]
    if i.op in ('call', 'invoke') and not (clsname(p[2]) or '').startswith('std::atomic'):
        c = callee(i)
        m = short(c).rsplit('::', 1)[-1] if c else '?'
        if m in SHRINK or m.startswith('~'):
            return None
        if m in GROW:
            return 'grow'
        if m == 'operator=' and len(i.ops) == 2:
            r = root(i.ops[1])
            if r.k == 'inst' and r.v.op == 'alloca':
                # assigned from a local that was only default constructed
                uses = [j for j in insts(fn) if j.op in ('call', 'invoke') and any(o is not None and o.k == 'inst' and o.v is r.v for o in j.ops)]
                names = [(short(callee(j)) if callee(j) else '?') for j in uses]
                if any(x.rsplit('::', 1)[-1].lstrip('~') not in ('queue', 'deque', 'vector', 'list', 'function', 'operator=', 'move', 'forward')
                       and not x.startswith('llvm.') for x in names):
                    return 'set'
                return None
        return 'set'
    if cv is not None and cv in (0, 1) and mine and t is not None and len(mine) == 1:
        j = mine[0]
        pol = False
        for m_, r in t.items():
            if (m_ >> j) & 1 == cv:
                o = t[m_ ^ (1 << j)]
                if r != 0 and o != 1:
                    pol = True
        # the value may also enter through an opaque comparison
        if not pol and not any(a[0] == 'op' for a in ks):
            return None
        if not pol:
            return None
    return 'set'


def check_wakeups(U, rep):
    ws = U.waits()
    for w in ws:
        if w.cv is None:
            rep.violation(w.inst, "cannot identify the condition variable waited on")
            continue
        if not w.pred:
            rep.violation(w.inst, "wait on %s is not re-checked against a condition (spurious or stolen wakeups)" % fld(U, w.cv))
            continue
        bf = w.truth()
        tab = bf.table()
        held = U.at.get((w.fn.name, w.inst.id), frozenset())
        mine = [x for x in held if x[0] == w.cv[0]]
        if not mine:
            rep.violation(w.inst, "waits on %s without holding the lock of its object" % fld(U, w.cv))
            continue
        rep.obligation("wait %s at %s on %s" % (fld(U, w.cv), loc(w.inst), sorted(fld(U, p) for p in w.pred)))
        same = [x for x in ws if x.cv == w.cv]
        for f in U.relevant():
            for i, p, k, cv in U.accesses(f):
                if U.exempt(f, i):
                    continue
                e = enabling(U, w, tab, f, i, p, k, cv)
                if e is None:
                    continue
                rep.obligation("write %s at %s must wake %s" % (fld(U, (p[0], p[1])), loc(i), fld(U, w.cv)))
                h = U.at.get((f.name, i.id), frozenset())
                if not any(x in h for x in mine):
                    rep.violation(i, "%s changes without the lock held by the wait at %s: the wakeup can be lost" % (fld(U, (p[0], p[1])), loc(w.inst)))
                    continue
                kinds = ('all', 'one') if e == 'grow' and all(x.pred == w.pred for x in same) else ('all',)
                np = U.notify_pred(w.cv, kinds)
                if U.followed_by(i, np):
                    continue

                def acq(j):
                    if j.op not in ('call', 'invoke'):
                        return False
                    c = callee(j)
                    return bool(c) and short(c).rsplit('::', 1)[0] in GUARDS and short(c).rsplit('::', 1)[-1] == short(c).rsplit('::', 1)[0].split('::')[-1]
                if U.preceded_by(i, np, acq):
                    continue
                rep.violation(i, "%s changes but %s waiting at %s is not notified%s on every path"
                              % (fld(U, (p[0], p[1])), fld(U, w.cv), loc(w.inst), '' if e == 'grow' else ' (all waiters)'))


def worker_starts(U, cls, ex):
    return [ex.start(r) for r in U.worker_roots if U.cls_of(r) == cls or cls in [U.cls_of(U.funcs[n]) for n in U.closure([r])]]


def waits_again(U, cls, roles, w):
    """with the quit flag set for good, can the worker that just returned from wait w come back to it?"""
    ex = Explorer(U, [cls], sticky={q: 1 for q in roles.quit})
    ex.when = lambda p: p.tag == ('w',)

    def visit(p, i):
        if i is w.inst:
            if p.tag == ('w',):
                return 'hit'
            p.tag = ('w',)
        return None
    try:
        return bool(ex.run(worker_starts(U, cls, ex), visit))
    except TooBig:
        return False


def check_shutdown(U, rep):
    for cls in stream_classes(U):
        roles = Roles(U, cls)
        dts = [f for f in U.funcs.values() if U.cls_of(f) == cls and U.is_dtor(f)]
        name = cls.split('::')[-1]
        if not dts:
            rep.violation(None, "%s has no destructor that stops its worker threads" % name)
            continue
        if not roles.quit:
            rep.violation(dts[0].entry.insts[0], "%s: the destructor sets no flag that the workers' waits watch" % name)
            continue
        cvs, barr = {}, {}
        for w in U.waits():
            if w.fn.name not in U.worker:
                continue
            if w.cv and w.cv[0] == cls:
                cvs.setdefault(w.cv, []).append(w)
                t = w.truth()
                tab = t.table() if t else (None, None)
                q = [j for j, a in enumerate(tab[0] or ()) if a[0] in roles.quit]
                rep.obligation("%s: wait at %s is released by the quit flag" % (name, loc(w.inst)))
                if tab[1] is None or not q or not all(any(tab[1][m] == 1 for _ in (0,)) for m in tab[1] if all((m >> j) & 1 for j in q)):
                    rep.violation(w.inst, "the worker's wait on %s is not released when the stream is destroyed" % fld(U, w.cv))
                rep.obligation("%s: after the wait at %s a stopping worker leaves" % (name, loc(w.inst)))
                if waits_again(U, cls, roles, w):
                    rep.violation(w.inst, "a worker can wait on %s again after the stream started to be destroyed" % fld(U, w.cv))
        # barrier-like members used by workers
        for f in U.relevant():
            if f.name not in U.worker:
                continue
            for i in insts(f):
                if i.op in ('call', 'invoke') and callee(i) in U.funcs and i.ops:
                    p = place(i.ops[0])
                    g = U.funcs[callee(i)]
                    if p and p[0] == cls and U.cls_of(g) not in (None, cls):
                        for w in U.waits():
                            if w.fn.name in U.closure([g]):
                                barr.setdefault((p[0], p[1]), (U.cls_of(g), w))
        for dt in dts:
            joins = [j for j in insts(dt) if U.joins_thread(j)]
            rep.obligation("%s: destructor joins its threads" % name)
            if not joins:
                rep.violation(dt.entry.insts[0], "%s: destructor does not join the worker threads" % name)
                continue
            for j in joins:
                if U.at.get((dt.name, j.id)):
                    rep.violation(j, "threads are joined while holding a lock the workers need")
                if short(callee(j)) == 'std::thread::join':
                    ls = U.loops_of(j.bb)
                    rep.obligation("%s: every thread is joined" % name)
                    if not ls:
                        rep.violation(j, "only one thread is joined (the join is not in a loop over the threads)")
                    else:
                        check_full_iteration(U, dt, ls[0], j, rep, lambda x: callee(x) and short(callee(x)) == 'std::thread::joinable')
                else:
                    g = U.funcs[callee(j)]
                    for j2 in insts(g):
                        if j2.op in ('call', 'invoke') and callee(j2) and short(callee(j2)) == 'std::thread::join':
                            ls = U.loops_of(j2.bb)
                            if not ls and len(g.args) and 'for_each' not in short(g.name):
                                pass
            isjoin = lambda x: any(x is j for j in joins)

            def before_join(pred, what):
                rep.obligation("%s: destructor %s before joining" % (name, what))
                memo = {}

                def stop(x):
                    if pred(x):
                        return True
                    if x.op in ('call', 'invoke') and callee(x) in U.funcs:
                        return U.must(U.funcs[callee(x)], pred, memo)
                    return False
                r = U.path_avoiding(dt.entry.insts[0], stop, goal=isjoin, start_after=False)
                if r is not None:
                    rep.violation(r, "%s: threads are joined on a path where the destructor did not %s" % (name, what))
            qw = set()
            for f in U.relevant():
                for i, p, k, cv in U.accesses(f):
                    if (p[0], p[1]) in roles.quit and k == 'w' and cv == 1:
                        qw.add((f.name, i.id))
            before_join(lambda x: (x.fn.name, x.id) in qw, "set the quit flag")
            for cv in cvs:
                before_join(U.notify_pred(cv), "wake all waiters of %s" % fld(U, cv))
            for b, (bc, w) in barr.items():
                # an interrupting method: sets a field that forces the barrier predicate true, and notifies
                t = w.truth()
                ks, tab = t.table() if t else ((), None)
                good = set()
                if tab:
                    for j, a in enumerate(ks):
                        if a[0] in ('op', 'call'):
                            continue
                        for val in (0, 1):
                            if all(r == 1 for m, r in tab.items() if (m >> j) & 1 == val):
                                good.add((a[0], val))
                meths = set()
                for g in U.funcs.values():
                    if U.cls_of(g) != bc or U.is_ctor(g):
                        continue
                    ss = [i for i, p, k, cv in U.accesses(g) if k == 'w' and ((p[0], p[1]), cv) in good]
                    if ss and U.must(g, lambda x: any(x is s for s in ss)):
                        meths.add(g.name)

                def intr(x):
                    if x.op not in ('call', 'invoke') or callee(x) not in meths:
                        return False
                    p = place(x.ops[0])
                    return p is not None and (p[0], p[1]) == b
                before_join(intr, "interrupt %s" % fld(U, b))
                # once interrupted it must stay open: nobody but the constructor resets the flag
                for g in U.funcs.values():
                    if U.cls_of(g) == bc and not U.is_ctor(g):
                        for i, p, k, cv in U.accesses(g):
                            if k == 'w' and any((p[0], p[1]) == a and cv is not None and cv != val for a, val in good if (a, 1 - val) not in good):
                                rep.violation(i, "an interrupted barrier is closed again")


def check_full_iteration(U, fn, loop, j, rep, allow):
    """every iteration of the loop over the threads executes j, and the iterators are plain begin()/end() (or an index up to size())"""
    head, body = loop
    # path head -> head inside the loop that avoids j?
    seen, st = set(), [s for s in U.nsucc(head) if s in body]
    if j.bb is head:
        return
    while st:
        b = st.pop()
        if b in seen or b is j.bb:
            continue
        seen.add(b)
        for s in U.nsucc(b):
            if s is head:
                t = b.insts[-1]
                # a skip is fine if it is decided by joinable()
                if not any(allow(x) for bb in body for x in bb.insts if x.op in ('call', 'invoke')):
                    rep.violation(j, "an iteration can skip joining its thread")
                return
            if s in body:
                st.append(s)
    names = [short(callee(x)).rsplit('::', 1)[-1] for b in fn.blocks for x in b.insts if x.op in ('call', 'invoke') and callee(x)]
    for b in fn.blocks:
        for x in b.insts:
            if x.op in ('call', 'invoke') and callee(x) and 'normal_iterator' in short(callee(x)):
                m = short(callee(x)).rsplit('::', 1)[-1]
                if m in ('operator+', 'operator-', 'operator+=', 'operator-=') or (m in ('operator++',) and b not in body):
                    rep.violation(x, "the join loop does not cover all threads")


# ====================================================================== completion protocol
def bool_callback(i):
    if i.op not in ('call', 'invoke'):
        return False
    c = callee(i)
    return bool(c) and short(c) == 'std::function::operator()' and len(i.ops) == 2 and params(c) == ['bool']


def block_callback(i):
    if i.op not in ('call', 'invoke'):
        return False
    c = callee(i)
    return bool(c) and short(c) == 'std::function::operator()' and len(i.ops) == 2 and 'Block' in (params(c) or [''])[0]


def impl_call(i):
    """call through a function pointer of the implementation table"""
    if i.op not in ('call', 'invoke') or callee(i) is not None:
        return False
    v = i.x['callee']
    if v.k == 'inst' and v.v.op == 'load':
        p = place(v.v.ops[0])
        return bool(p) and 'lib842_implementation' in p[0]
    return False


class StreamModel:
    """the fields of one stream class by role, and the events of its worker"""

    def __init__(self, U, cls):
        self.U, self.cls = U, cls
        self.roles = Roles(U, cls)
        r = self.roles
        self.counter, self.queue = set(), set()
        wt, wf = set(), set()
        for f in U.relevant():
            for i, p, k, cv in U.accesses(f):
                if p[0] != cls:
                    continue
                q = (p[0], p[1])
                t = clsname(p[2]) or ''
                if f.name in U.worker:
                    if i.op in ('call', 'invoke') and callee(i):
                        m = short(callee(i)).rsplit('::', 1)[-1]
                        if m in ('pop', 'pop_front', 'pop_back') and i.ops and place(i.ops[0]) and (place(i.ops[0])[0], place(i.ops[0])[1]) == q:
                            self.queue.add(q)
                        if t.startswith('std::atomic') and m in ('fetch_add', 'operator+=', 'operator++', 'fetch_sub'):
                            self.counter.add(q)
                    if k == 'atomic':
                        self.counter.add(q)
                    if k == 'w' and cv == 1:
                        wt.add(q)
                    if k == 'w' and cv == 0:
                        wf.add(q)
        self.error = (wt - r.quit - r.fin - r.trig - self.counter)
        self.memo = {}

    def event(self, i):
        U = self.U
        if i.op not in ('call', 'invoke'):
            return None
        if U.is_wait(i):
            w = next(x for x in U.waits() if x.inst is i)
            if w.pred & self.roles.trig:
                return 'T'
            if w.pred & self.roles.fin:
                return 'F'
            return None
        c = callee(i)
        if c in U.funcs and i.ops:
            p = place(i.ops[0])
            if p and p[0] == self.cls:
                g = U.funcs[c]
                if U.cls_of(g) not in (None, self.cls):
                    if c not in self.memo:
                        self.memo[c] = any(w.fn.name in U.closure([g]) for w in U.waits())
                    if self.memo[c] and not 'latch' in (U.cls_of(g) or ''):
                        return 'B'
        return None


class WorkerExplorer(Explorer):
    """control flow of one worker; the barrier and latch objects are opaque"""

    def __init__(self, M, **kw):
        super().__init__(M.U, [M.cls], **kw)
        self.M = M
        self.implret = None
        self.empty = None
        self.limit = 120000

    def default_inline(self, fn, i):
        c = self.U.cls_of(fn)
        if c is not None and c != self.M.cls:
            return False
        return super().default_inline(fn, i)

    def call_value(self, p, i, c):
        if c is None:
            if impl_call(i) and self.implret is not None:
                return self.implret
            return None
        if i.ops:
            q = place(i.ops[0])
            if q and (q[0], q[1]) in self.M.queue:
                m = short(c).rsplit('::', 1)[-1]
                if m == 'empty' and self.empty is not None:
                    return self.empty
                if m == 'size' and self.empty is not None:
                    return 0 if self.empty else NZ
        return None

    def harmless(self, p, i, c):
        # constructing/destroying/streaming other objects does not change the ints and bools tracked in a block
        return False


def check_finalize(U, rep):
    for cls in stream_classes(U):
        M = StreamModel(U, cls)
        r = M.roles
        name = cls.split('::')[-1]
        wroots = [f for f in U.worker_roots if U.cls_of(f) == cls]
        if not wroots or not (r.quit and r.fin and r.trig and M.error):
            rep.violation(None if not wroots else wroots[0].entry.insts[0],
                          "%s: cannot find the fields for quit/finalising/trigger/error (missing writes?)" % name)
            continue
        root_ = wroots[0]
        held = lambda i: any(a[0] == cls for a in U.at.get((i.fn.name, i.id), ()))

        def explore(tid, quit, err, what, judge, implret=None, empty=None, quit_after=False):
            ex = WorkerExplorer(M, sticky={q: quit for q in r.quit} if quit is not None else {})
            ex.implret, ex.empty = implret, empty
            fk = [('f',) + q for q in M.error | r.fin | M.counter]
            ex.pinned = set(fk)
            if quit_after:
                ex.when = lambda p: bool(p.tag) and p.tag[0] == 3

            def visit(p, i):
                ph, n = p.tag if p.tag else (0, 0)
                e = M.event(i)
                x = judge(p, i, ph, n, e)
                if x:
                    return x
                if e == 'T':
                    p.tag = (1, 0)
                elif e == 'F' and ph == 1:
                    p.tag = (2, 0)
                    if empty == 1:
                        for q in r.fin:      # the wait only returns when there is work or finalisation was requested
                            p.env[('f',) + q] = 1
                elif e == 'B' and ph == 2:
                    p.tag = (3, 0)
                    if err is not None:
                        for q in M.error:
                            p.env[('f',) + q] = err
                        for q in r.fin:
                            p.env[('f',) + q] = 1
                        for q in M.counter:
                            p.env[('f',) + q] = 1 << 63
                elif bool_callback(i):
                    p.tag = (ph, n + 1)
                return None
            args = {1: tid} if tid is not None and len(root_.args) > 1 else {}
            st = [ex.start(root_, args=args)]
            for s in st:
                s.tag = (0, 0)
            rep.obligation("%s: %s" % (name, what))
            try:
                return ex.run(st, visit)
            except TooBig:
                rep.notes.append("exploration limit reached for: %s %s" % (name, what))
                return []

        calls = [i for f in U.relevant() if f.name in U.worker for i in insts(f) if bool_callback(i)]
        if not calls:
            rep.violation(root_.entry.insts[0], "%s: completion callback is never invoked by a worker" % name)
            continue
        seen = []
        # leader, success and failure
        for err in (0, 1):
            def judge(p, i, ph, n, e):
                if bool_callback(i):
                    if ph != 3:
                        seen.append((i, "completion callback can run before all workers have finished the operation"))
                        return 'stop'
                    if n >= 1:
                        seen.append((i, "completion callback runs twice for one operation"))
                        return 'stop'
                    a = ex_arg(p, i)
                    if a != 1 - err:
                        seen.append((i, "completion callback reports %s for an operation that %s" % (
                            'success' if a == 1 else 'failure' if a == 0 else 'an unrelated status', 'failed' if err else 'succeeded')))
                    for what, fs in (('error', M.error), ('finalising', r.fin), ('progress', M.counter)):
                        for q in fs:
                            if p.env.get(('f',) + q) != 0:
                                seen.append((i, "%s is not reset before the completion callback (which may start the next operation)" % fld(U, q)))
                if (e == 'T' or i.op == 'ret' and len(p.frames) == 1) and ph == 3 and n == 0:
                    seen.append((i, "the leader goes on to the next operation without invoking the completion callback"))
                    return 'stop'
                return None

            def ex_arg(p, i):
                return WorkerExplorer(M).val(i.ops[1], p)
            explore(0, 0, err, "worker 0 reports %s exactly once, after the barrier" % ('failure' if err else 'success'), judge)

        def judge_other(p, i, ph, n, e):
            if bool_callback(i):
                seen.append((i, "a second worker also invokes the completion callback"))
                return 'stop'
        explore(1, 0, None, "other workers never invoke the callback", judge_other)

        def judge_quit(p, i, ph, n, e):
            if bool_callback(i):
                seen.append((i, "completion callback runs although the barrier was only left because of destruction"))
                return 'stop'
        explore(0, 1, None, "no callback once the stream is being destroyed", judge_quit, quit_after=True)

        # failure of the implementation must be recorded
        errw = set()
        for f in U.relevant():
            for i, p, k, cv in U.accesses(f):
                if (p[0], p[1]) in M.error and k == 'w' and cv == 1 and f.name in U.worker:
                    errw.add((f.name, i.id))
        ncall = [i for f in U.relevant() if f.name in U.worker for i in insts(f) if impl_call(i)]
        if not ncall:
            rep.violation(root_.entry.insts[0], "%s: no worker calls the implementation" % name)

        def drops(p, i):
            """does this instruction discard the work that is still pending?"""
            for j, q, k, cv in U.accesses(i.fn):
                if j is not i:
                    continue
                q = (q[0], q[1])
                if q in M.counter and i.op in ('store', 'call', 'invoke'):
                    x = ex_val(i.ops[0] if i.op == 'store' else i.ops[1], p) if len(i.ops) > 1 else None
                    if isinstance(x, int) and x >= 1 << 62:
                        return True
                if q in M.queue and i.op in ('call', 'invoke') and callee(i):
                    m = short(callee(i)).rsplit('::', 1)[-1]
                    if m in ('front', 'back', 'top'):
                        p.env[('s', 'front')] = 1
                    elif m.startswith('pop'):
                        return not p.env.get(('s', 'front'))
                    elif m in ('operator=', 'swap', 'clear', 'exchange', 'move'):
                        return True
            return False

        def ex_val(v, p):
            return WorkerExplorer(M).val(v, p)

        def judge_fail(p, i, ph, n, e):
            st = p.env.get(('s', 'fail'))
            if st and drops(p, i):
                p.env[('s', 'drop')] = 1
            if impl_call(i):
                if st == 1:
                    seen.append((i, "a failed block is dropped: the next block starts before the failure was recorded"))
                    return 'stop'
                if st == 2 and not p.env.get(('s', 'drop')):
                    seen.append((i, "work that was pending when the operation failed is still processed"))
                    return 'stop'
                p.env[('s', 'fail')] = 1
                p.env[('s', 'drop')] = 0
                p.env[('s', 'front')] = 0
            elif (i.fn.name, i.id) in errw:
                if not held(i):
                    seen.append((i, "the error flag is set without the lock"))
                p.env[('s', 'fail')] = 2
            elif e in ('F', 'B', 'T') and st == 1:
                seen.append((i, "a worker can reach this point with a failed block whose failure was never recorded"))
                return 'stop'
            elif block_callback(i) and st is not None:
                a = WorkerExplorer(M).ptrval(i.ops[1], p)
                o = block_offset_field(U)
                if isinstance(a, tuple) and o is not None:
                    v = p.env.get(('m', a[1], a[2] + o))
                    if isinstance(v, int) and v != (1 << 64) - 1:
                        seen.append((i, "a failed block is handed to the user without the error marker"))
            return None
        explore(0, 0, None, "a failing implementation call sets the error flag under the lock", judge_fail, implret=0xffffffe4)

        # queue: nothing left behind
        if M.queue:
            def is_q(i, names):
                if i.op not in ('call', 'invoke') or not callee(i) or not i.ops:
                    return False
                q = place(i.ops[0])
                return bool(q) and (q[0], q[1]) in M.queue and short(callee(i)).rsplit('::', 1)[-1] in names

            def judge_drain(p, i, ph, n, e):
                if e == 'B':
                    seen.append((i, "a worker finalises although blocks are still queued"))
                    return 'stop'
            explore(0, 0, None, "workers drain the queue before finalising", judge_drain, empty=0)

            def judge_empty(p, i, ph, n, e):
                if is_q(i, ('front', 'pop', 'back')):
                    seen.append((i, "a worker takes a block from an empty queue"))
                    return 'stop'
            explore(0, 0, None, "workers never take from an empty queue", judge_empty, empty=1)
        check_api(U, M, rep, seen)
        for i, m in seen:
            rep.violation(i, m)


def block_offset_field(U):
    for c, fs in U.fields.items():
        if c.endswith('::Block') or c == 'Block':
            for o, n in fs.items():
                if n == 'offset':
                    return o
    return None


def check_api(U, M, rep, seen):
    """start / push / finalize entry points against the flags"""
    r, cls = M.roles, M.cls
    name = cls.split('::')[-1]

    def stops(i):
        """does this instruction discard pending work?"""
        for j, p, k, cv in U.accesses(i.fn):
            if j is not i:
                continue
            q = (p[0], p[1])
            if q in M.counter and k != 'r':
                return True
            if q in M.queue and i.op in ('call', 'invoke') and callee(i) and i.ops and place(i.ops[0]) and (place(i.ops[0])[0], place(i.ops[0])[1]) == q:
                if short(callee(i)).rsplit('::', 1)[-1] in ('operator=', 'clear', 'swap', 'pop'):
                    return True
            if q in M.queue and i.op in ('call', 'invoke') and callee(i) and short(callee(i)).rsplit('::', 1)[-1] == 'swap':
                return True
        return False

    def grows(i):
        if i.op not in ('call', 'invoke') or not callee(i) or not i.ops:
            return False
        q = place(i.ops[0])
        return bool(q) and (q[0], q[1]) in M.queue and short(callee(i)).rsplit('::', 1)[-1] in GROW

    for f in U.api_roots:
        if U.cls_of(f) != cls or U.is_ctor(f) or U.is_dtor(f):
            continue
        acc = [(j, p, k, cv) for n in U.closure([f]) for j, p, k, cv in U.accesses(U.funcs[n])]
        setsfin = any((p[0], p[1]) in r.fin and k == 'w' and cv == 1 for j, p, k, cv in acc)
        bools = [a for a in range(1, len(f.args)) if f.args[a].ty.k == 'int' and f.args[a].ty.w in (1, 8)]
        if setsfin and bools:
            for cancel in (0, 1):
                rep.obligation("%s: %s with cancel=%d" % (name, short(f.name), cancel))
                ex = WorkerExplorer(M)

                def visit(p, i):
                    if stops(i):
                        if not cancel:
                            seen.append((i, "pending work is discarded although the operation is not cancelled"))
                            return 'stop'
                        p.env[('s', 'stop')] = 1
                        for j, q, k, cv in U.accesses(i.fn):
                            if j is i and (q[0], q[1]) in M.counter and i.op in ('store', 'call', 'invoke'):
                                x = ex.val(i.ops[0] if i.op == 'store' else i.ops[1], p) if len(i.ops) > 1 else None
                                if isinstance(x, int) and x < 1 << 62:
                                    seen.append((i, "the cancel marker does not stop the workers"))
                    for j, q, k, cv in U.accesses(i.fn):
                        if j is i and (q[0], q[1]) in r.fin and k == 'w' and cv == 1:
                            p.env[('s', 'fin')] = 1
                    if i.op == 'ret' and len(p.frames) == 1:
                        if not p.env.get(('s', 'fin')):
                            seen.append((i, "finalisation is not requested on every path"))
                        if cancel and not p.env.get(('s', 'stop')):
                            seen.append((i, "cancel leaves the pending work in place"))
                try:
                    ex.run([ex.start(f, args={a: cancel for a in bools})], visit)
                except TooBig:
                    pass
        if any(grows(j) for j, p, k, cv in acc):
            for err in (0, 1):
                rep.obligation("%s: %s with error=%d" % (name, short(f.name), err))
                ex = WorkerExplorer(M, sticky={q: err for q in M.error})

                def visit(p, i):
                    if grows(i):
                        p.env[('s', 'n')] = p.env.get(('s', 'n'), 0) + 1
                        if err:
                            seen.append((i, "a block is queued although the operation has already failed"))
                            return 'stop'
                        if p.env[('s', 'n')] > 1:
                            seen.append((i, "a block is queued twice"))
                            return 'stop'
                    if i.op == 'ret' and len(p.frames) == 1 and i.ops:
                        x = ex.val(i.ops[0], p)
                        if x is not None and x != 1 - err:
                            seen.append((i, "returns %s although the operation %s" % (bool(x), 'has failed' if err else 'is running normally')))
                        if not err and not p.env.get(('s', 'n')):
                            seen.append((i, "a block can be dropped without being queued"))
                try:
                    ex.run([ex.start(f)], visit)
                except TooBig:
                    pass
        trg = [j for j, p, k, cv in acc if (p[0], p[1]) in r.trig and k != 'r']
        if trg:
            rep.obligation("%s: %s raises the trigger once on every path" % (name, short(f.name)))
            ex = WorkerExplorer(M)
            ids = set((j.fn.name, j.id) for j in trg)

            def visit(p, i):
                if (i.fn.name, i.id) in ids:
                    p.env[('s', 't')] = p.env.get(('s', 't'), 0) + 1
                    if p.env[('s', 't')] > 1:
                        seen.append((i, "the trigger is raised twice for one operation"))
                        return 'stop'
                if i.op == 'ret' and len(p.frames) == 1 and not p.env.get(('s', 't')):
                    seen.append((i, "an operation can be requested without raising the trigger"))
            try:
                ex.run([ex.start(f)], visit)
            except TooBig:
                pass
