"""Effect analyses over the LLVM IR of the main-memory API: shared mutable state and escaping exceptions."""
import build, irload
from irq import *

ENTRY_RE = re.compile(r'^(get_)?(sw|optsw|cl)842_|^get_(sw|optsw)842_')
NONREENTRANT = {'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'srand48', 'strtok', 'localtime', 'gmtime', 'asctime',
                'ctime', 'strerror', 'setlocale', 'tmpnam', 'setenv', 'putenv', 'unsetenv', 'clearenv', 'hcreate', 'hsearch', 'hdestroy',
                'signal', 'sigaction', 'chdir', 'umask', 'readdir', 'getpwnam', 'getpwuid', 'ecvt', 'fcvt', 'gcvt', 'ptsname', 'ttyname',
                'getopt', 'basename', 'dirname', 'strsignal', 'l64a', 'getgrnam', 'getservbyname', 'gethostbyname', 'inet_ntoa'}
# external C functions and the pointer arguments they write through
WRITES = {'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'strcpy': (0,), 'strncpy': (0,), 'strcat': (0,), 'sprintf': (0,), 'snprintf': (0,),
          'fread': (0,), 'read': (1,), 'bzero': (0,), 'vsnprintf': (0,), 'qsort': (0,), 'realloc': (0,), 'free': (0,), 'bcopy': (1,),
          'strlcpy': (0,), 'posix_memalign': (0,), 'getline': (0, 1)}


def groot(v, d=0):
    """name of the global variable an address is a constant or computed offset into, and whether through a load"""
    while d < 40:
        d += 1
        if v.k == 'gvar':
            return v.v
        if v.k == 'cexpr' and v.x and v.x[0]:
            v = v.x[0][0]
            continue
        if v.k == 'inst' and v.v.op in ('getelementptr', 'bitcast', 'addrspacecast', 'freeze'):
            v = v.v.ops[0]
            continue
        if v.k == 'inst' and v.v.op in ('call', 'invoke') and callee(v.v) and short(callee(v.v)) in PASS:
            v = v.v.ops[0]
            continue
        return None
    return None


def roots(v, seen=None, d=0):
    """all bases an address may have: ('g', name), ('lg', name) loaded from global name, ('arg', n), ('other',)"""
    seen = set() if seen is None else seen
    out = set()
    st = [v]
    while st:
        v = st.pop()
        if v.k == 'gvar':
            out.add(('g', v.v))
        elif v.k == 'arg':
            out.add(('arg', v.v if isinstance(v.v, int) else getattr(v.v, 'no', -1)))
        elif v.k == 'cexpr' and v.x and v.x[0]:
            st.append(v.x[0][0])
        elif v.k == 'inst':
            i = v.v
            if i.id in seen:
                continue
            seen.add(i.id)
            if i.op in ('getelementptr', 'bitcast', 'addrspacecast', 'freeze'):
                st.append(i.ops[0])
            elif i.op == 'phi':
                st += phivals(i)
            elif i.op == 'select':
                st += [i.ops[1], i.ops[2]]
            elif i.op == 'load':
                g = groot(i.ops[0])
                out.add(('lg', g) if g else ('other',))
            elif i.op in ('call', 'invoke') and callee(i) and short(callee(i)) in PASS:
                st.append(i.ops[0])
            else:
                out.add(('other',))
        else:
            out.add(('other',))
    return out


def phivals(i):
    if i.x and isinstance(i.x, list) and i.x and isinstance(i.x[0], tuple):
        return [a[0] if hasattr(a[0], 'k') else a[1] for a in i.x]
    return list(i.ops)


def in_repo(fn):
    for i in insts(fn):
        if i.file:
            return i.file.startswith(build.REPO + '/')
    return False


def inst_in_repo(i):
    return bool(i.file) and i.file.startswith(build.REPO + '/')


class Prog:
    """functions of several units; internal-linkage functions and globals are resolved in their own unit first"""

    def __init__(self, srcs):
        self.units = [Unit(p) for p in build.irs(srcs)]
        self.glob = {}
        for u in self.units:
            for n, f in u.funcs.items():
                self.glob.setdefault(n, f)
        self.of = {}
        for u in self.units:
            for f in u.funcs.values():
                self.of[id(f)] = u

    def funcs(self):
        for u in self.units:
            for f in u.funcs.values():
                yield u, f

    def target(self, i):
        c = callee(i)
        if c is None:
            return None
        u = self.of[id(i.fn)]
        return u.funcs.get(c) or self.glob.get(c)

    def reachable(self, entries):
        seen, st = {}, list(entries)
        while st:
            f = st.pop()
            if id(f) in seen:
                continue
            seen[id(f)] = f
            for i in insts(f):
                if i.op in ('call', 'invoke'):
                    g = self.target(i)
                    if g is not None:
                        st.append(g)
                for o in i.ops:
                    if o is not None:
                        for n in funcrefs(o):
                            g = self.of[id(f)].funcs.get(n) or self.glob.get(n)
                            if g is not None:
                                st.append(g)
        return list(seen.values())


def funcrefs(v, d=0):
    if v.k == 'func':
        yield v.v
    elif d < 6 and v.k == 'cexpr' and v.x:
        for x in v.x[0]:
            yield from funcrefs(x, d + 1)
    elif d < 6 and v.k == 'agg':
        for x in v.v:
            yield from funcrefs(x, d + 1)


# ------------------------------------------------------------------ P07
def writes_param(P):
    """for every function: the pointer parameters it may store through (transitively, direct addresses only)"""
    W = {}
    ch = True
    fs = [f for _, f in P.funcs()]
    while ch:
        ch = False
        for f in fs:
            w = W.setdefault(id(f), set())
            n0 = len(w)
            for i in insts(f):
                tg = []
                if i.op == 'store':
                    tg = [i.ops[1]]
                elif i.op in ('atomicrmw', 'cmpxchg'):
                    tg = [i.ops[0]]
                elif i.op in ('call', 'invoke'):
                    g = P.target(i)
                    c = callee(i)
                    if g is not None:
                        tg = [a for k, a in enumerate(i.ops) if k in W.get(id(g), ())]
                    elif c:
                        b = c.split('.')[1] if c.startswith('llvm.') and '.' in c else c
                        tg = [i.ops[k] for k in WRITES.get(b, ()) if k < len(i.ops)]
                for a in tg:
                    for r in roots(a):
                        if r[0] == 'arg':
                            w.add(r[1])
            ch |= len(w) != n0
    return W


def guarded_blocks(f):
    """blocks only executed while the initialisation guard of a local static is held"""
    acq = [i for i in insts(f) if i.op in ('call', 'invoke') and callee(i) == '__cxa_guard_acquire']
    if not acq:
        return set()
    seen, st = set(), [f.entry]
    skip = set(a.id for a in acq)
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        t = b.insts[-1]
        succ = list(b.succ)
        if t.op == 'br' and len(t.ops) >= 1 and len(succ) == 2:
            c = t.ops[0]
            hops = 0
            while c.k == 'inst' and c.v.op in ('icmp', 'trunc', 'zext') and hops < 4:
                if c.v.ops[0].k == 'inst' and c.v.ops[0].v.id in skip:
                    # taken edge when the guard was acquired
                    succ = [succ[1]] if c.v.x == 'ne' else [succ[0]]
                    break
                c = c.v.ops[0]
                hops += 1
        st += succ
    return set(f.blocks) - seen


def check_reentrancy(rep):
    P = Prog(build.SERIAL + build.OPT + build.OCL)
    ents = [f for _, f in P.funcs() if ENTRY_RE.match(f.name)]
    for f in ents:
        rep.obligation("entry point %s" % f.name)
    W = writes_param(P)
    reach = P.reachable(ents)
    rep.notes.append("Every store, block write and call reachable from the %d entry points is checked for writes to memory shared between "
                     "calls (global and static variables that are neither thread-local nor initialisation-guarded), and for library "
                     "functions with hidden static state." % len(ents))
    for f in reach:
        if not in_repo(f):
            continue
        u = P.of[id(f)]
        rep.funcs.add(short(f.name))
        gb = guarded_blocks(f)
        locked = any(i.op in ('call', 'invoke') and callee(i) and short(callee(i)) in ('std::mutex::lock', 'pthread_mutex_lock') for i in insts(f)) or \
            any(i.op in ('call', 'invoke') and callee(i) and re.match(r'std::(lock_guard|unique_lock|scoped_lock)', short(callee(i))) for i in insts(f))

        def shared(g):
            gv = u.m.gvars.get(g)
            if gv is None or gv.const or gv.tls:
                return False
            if g.startswith(('_ZTV', '_ZTI', '_ZTS', '_ZGV', '.str', '__dso', 'llvm.')):
                return False
            return True

        def bad(i, g, how):
            if i.bb in gb or locked:
                return
            rep.violation(i, "%s %s, which all concurrent calls share" % (how, dm(g)))

        for i in insts(f):
            tg = []
            if i.op == 'store':
                tg = [(i.ops[1], 'stores to')]
            elif i.op in ('atomicrmw', 'cmpxchg'):
                tg = []
            elif i.op in ('call', 'invoke'):
                c = callee(i)
                g = P.target(i)
                if c in NONREENTRANT:
                    rep.violation(i, "calls %s, which keeps hidden state between calls" % c)
                if g is not None:
                    tg = [(a, 'passes to a writing parameter of %s:' % short(g.name)) for k, a in enumerate(i.ops) if k in W.get(id(g), ())]
                elif c:
                    b = c.split('.')[1] if c.startswith('llvm.') and '.' in c else c
                    tg = [(i.ops[k], 'writes to') for k in WRITES.get(b, ()) if k < len(i.ops)]
            if tg:
                rep.obligation("%s %s %s" % (loc(i), short(f.name), i.op))
            for a, how in tg:
                for r in roots(a):
                    if r[0] in ('g', 'lg') and shared(r[1]):
                        if r[0] == 'lg' and (u.m.gvars[r[1]].decl):
                            continue        # stderr and friends
                        bad(i, r[1], how if r[0] == 'g' else how + ' memory reached through')


# ------------------------------------------------------------------ P08
STDEXC = {'_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt11logic_error': '_ZTISt9exception',
          '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
          '_ZTINSt8ios_base7failureB5cxx11E': '_ZTISt12system_error', '_ZTISt12system_error': '_ZTISt13runtime_error',
          '_ZTIN2cl5ErrorE': '_ZTISt9exception'}


class Throws:
    def __init__(self, P):
        self.P = P
        self.base = dict(STDEXC)
        for u in P.units:
            for n, g in u.m.gvars.items():
                if n.startswith('_ZTI') and getattr(g, 'init', None) is not None and g.init.k == 'agg':
                    for x in g.init.v[2:]:
                        b = groot(x)
                        if b and b.startswith('_ZTI'):
                            self.base.setdefault(n, b)
        self.T = {}
        self.why = {}
        self.inner = {}
        fs = [f for _, f in P.funcs()]
        ch = True
        while ch:
            ch = False
            for f in fs:
                t, inn = self.compute(f)
                if t - self.T.get(id(f), set()) or inn - self.inner.get(id(f), set()):
                    self.T[id(f)] = self.T.get(id(f), set()) | t
                    self.inner[id(f)] = self.inner.get(id(f), set()) | inn
                    ch = True

    def isa(self, t, c):
        for _ in range(8):
            if t == c:
                return True
            t = self.base.get(t)
            if t is None:
                return False
        return False

    def thrown(self, i):
        """exception types a call instruction may raise"""
        c = callee(i)
        if i.x['nounwind']:
            return set()
        if c is None:
            return {'unknown'} if i.x['callee'].k != 'asm' else set()
        if c in ('__cxa_throw',):
            g = groot(i.ops[1])
            return {g or 'unknown'}
        if c == '__cxa_rethrow':
            return set(self.entering(i.fn))
        g = self.P.target(i)
        if g is not None:
            return set() if g.nounwind else set(self.T.get(id(g), ()))
        u = self.P.of[id(i.fn)]
        d = u.m.funcs.get(c)
        if d is not None and d.nounwind:
            return set()
        if c.startswith(('_Znw', '_Zna')):
            return set() if 'nothrow' in c else {'_ZTISt9bad_alloc'}
        if not c.startswith('_Z'):
            return set()
        s = short(c)
        if s.startswith('std::__throw_'):
            n = s[len('std::__throw_'):]
            k = {'length_error': '_ZTISt12length_error', 'bad_alloc': '_ZTISt9bad_alloc', 'out_of_range': '_ZTISt12out_of_range',
                 'out_of_range_fmt': '_ZTISt12out_of_range', 'logic_error': '_ZTISt11logic_error', 'bad_array_new_length': '_ZTISt9bad_alloc'}
            return {k.get(n, 'std')}
        if re.search(r'(i|o|io)?stream|filebuf|basic_ios|ios_base', s):
            # formatted output to cout/cerr only throws if exceptions() was enabled on it
            if s.startswith(('std::basic_ostream', 'std::ostream', 'std::operator<<', 'std::endl', 'std::flush')) and 'ofstream' not in s:
                return {'stream'}
            return {'_ZTINSt8ios_base7failureB5cxx11E'}
        return {'std'}

    def entering(self, f):
        r = set()
        for i in insts(f):
            if i.op == 'invoke':
                c = callee(i)
                if c != '__cxa_rethrow':
                    r |= self.thrown(i)
        return r

    def catches(self, lp, t):
        for c in lp.x['clauses']:
            if c.k in ('null', 'zero'):
                return True
            g = groot(c)
            if g is None:
                continue
            if t in ('unknown',):
                continue
            if t == 'stream':
                t = '_ZTINSt8ios_base7failureB5cxx11E'
            if t == 'std':
                if g == '_ZTISt9exception':
                    return True
                continue
            if self.isa(t, g):
                return True
        return False

    def compute(self, f):
        out, inner = set(), set()
        if not f.blocks:
            return out, inner
        for i in insts(f):
            if i.op == 'call':
                t = self.thrown(i)
                for x in t:
                    self.why.setdefault((id(f), x), i)
                out |= t
            elif i.op == 'invoke':
                t = self.thrown(i)
                if not t:
                    continue
                lp = next((j for j in i.x['unwind'].insts if j.op == 'landingpad'), None)
                for x in t:
                    if lp is None or not self.catches(lp, x):
                        if lp is not None and not self.resumes(i.x['unwind']):
                            inner.add(x)
                            self.why.setdefault((id(f), 'term', x), i)
                            continue
                        self.why.setdefault((id(f), x), i)
                        out.add(x)
                    elif lp is not None and self.terminates(i.x['unwind']):
                        inner.add(x)
                        self.why.setdefault((id(f), 'term', x), i)
        if f.nounwind:
            inner |= out
            for x in out:
                self.why.setdefault((id(f), 'term', x), self.why.get((id(f), x)))
            out = set()
        return out, inner

    def resumes(self, b):
        return any(j.op == 'resume' for x in reach_blocks([b]) for j in x.insts)

    def terminates(self, b):
        return any(j.op in ('call', 'invoke') and callee(j) == '__clang_call_terminate' for j in b.insts)

    def trace(self, f, x, d=0):
        i = self.why.get((id(f), x))
        if i is None:
            return None, []
        p = ["%s (%s)" % (short(f.name), loc(i))]
        if d > 12:
            return i, p
        g = self.P.target(i) if i.op in ('call', 'invoke') else None
        if g is not None and x in self.T.get(id(g), ()):
            j, q = self.trace(g, x, d + 1)
            return j or i, p + q
        return i, p


def tname(t):
    return {'unknown': 'an exception of an indirect call', 'std': 'a standard library exception', 'stream': 'a stream exception'}.get(t) or \
        dm(t).replace('typeinfo for ', '')


def check_exceptions(rep):
    P = Prog(build.OPT + build.OCL)
    T = Throws(P)
    ents = [f for _, f in P.funcs() if not f.name.startswith('_') and f.linkage == 0]
    mine = set()
    for u, f in P.funcs():
        for i in insts(f):
            if i.op in ('call', 'invoke') and callee(i) == '__cxa_throw' and inst_in_repo(i):
                mine.add(groot(i.ops[1]))
    rep.notes.append("Exception-type flow over the call graph (throw sites, unwind edges, catch clauses, typeinfo hierarchy): no exception type may "
                     "reach the caller of a C-linkage function, and no exception thrown by the library may hit a noexcept boundary. "
                     "Output to the standard streams is assumed not to throw.")
    for f in ents:
        t = {x for x in T.T.get(id(f), set()) if x != 'stream'}
        rep.obligation("C function %s: escaping exception types %s" % (f.name, sorted(t)))
        for x in sorted(t):
            i, p = T.trace(f, x)
            rep.violation(T.why.get((id(f), x)) or i, "%s can escape from the C function %s: %s" % (tname(x), f.name, ' -> '.join(p)), "%s: %s escapes" % (f.name, tname(x)))
    for u, f in P.funcs():
        if not in_repo(f):
            continue
        rep.funcs.add(short(f.name))
        for i in insts(f):
            if i.op in ('call', 'invoke') and inst_in_repo(i) and T.thrown(i):
                rep.obligation("%s %s may throw %s" % (loc(i), short(f.name), sorted(tname(x) for x in T.thrown(i))))
        for x in T.inner.get(id(f), ()):
            if x in mine:
                i = T.why.get((id(f), 'term', x))
                rep.violation(i if i is not None else f.entry.insts[0], "%s is thrown across a noexcept boundary and terminates the process" % tname(x))
