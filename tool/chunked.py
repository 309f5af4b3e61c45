"""P09: the sequential chunked functions are one call of the single-chunk function per chunk (scalar evolution + product automaton).
P21: the implementation tables bind every operation to its function."""
import os, re, subprocess
import build, irload
from irq import *

SRCS = build.SERIAL + build.OPT
FAMS = ('sw', 'optsw')
PIPE = ('function(sroa,early-cse,simplifycfg),always-inline,cgscc(inline),function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,'
        'gvn,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa),instnamer')
CODEC = re.compile(r'^(opt)?sw842_(de)?compress$')


def prepare(src):
    """IR in which everything except the single-chunk functions is inlined, and LLVM's scalar evolution of it"""
    w = build.workdir()
    base = os.path.join(w, 'chunk_' + src.replace('/', '_'))
    build.run(build.cflags(src) + ['-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-discard-value-names', '-fno-stack-protector', '-S', '-emit-llvm',
                                   os.path.join(build.REPO, src), '-o', base + '.ll'])
    s = open(base + '.ll').read()
    s = re.sub(r'(?m)^(define [^\n]*@(?:opt)?sw842_(?:de)?compress\([^\n]*?\)) (#|local_unnamed)', r'\1 noinline \2', s)
    # helpers of the chunked functions are inlined whatever their size; the codec functions have nothing to do with this property
    open(base + '.ll', 'w').write(s)
    build.run(['opt', '-S', '-inline-threshold=100000', '-passes=' + PIPE, base + '.ll', '-o', base + '.o.ll'])
    txt = subprocess.run(['opt', '-disable-output', '-passes=print<scalar-evolution>', base + '.o.ll'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors='replace').stdout
    sc, cur, ex = {}, None, {}
    last = None
    for l in txt.split('\n'):
        m = re.match(r'Classifying expressions for: @(\S+)', l)
        if m:
            cur = m.group(1)
            continue
        m = re.match(r'Determining loop execution counts for: @(\S+)', l)
        if m:
            cur = m.group(1)
            continue
        m = re.match(r'  (%\S+) = ', l)
        if m:
            last = m.group(1)
            continue
        m = re.match(r'  -->  (.*?) U: ', l)
        if m and last:
            sc[(cur, last)] = norm(m.group(1))
            continue
        m = re.match(r'Loop (%\S+): ', l)
        if m:
            lastloop = m.group(1)
        m = re.match(r'Loop (%\S+): backedge-taken count is (.*)', l)
        if m:
            ex.setdefault((cur, m.group(1)), {})[None] = norm(m.group(2))
        m = re.match(r'  exit count for (\S+): (.*)', l)
        if m:
            ex.setdefault((cur, lastloop), {})['%' + m.group(1)] = norm(m.group(2))
    return base + '.o.ll', sc, ex


def norm(s):
    return re.sub(r'<[^<>]*>', '', s).strip()


class Bad(Exception):
    pass


class Unknown(Exception):
    pass


class V(str):
    """a symbolic value (normalised scalar evolution text)"""


ERR = {'EINVAL': -22 & 0xffffffff, 'ENOMEM': -12 & 0xffffffff, 'ENOSPC': -28 & 0xffffffff}
ILENS = (0xffffffffffffffff, 0x100000005, 0)
CRES = (0, ERR['ENOSPC'], ERR['EINVAL'], ERR['ENOMEM'])


class Walk:
    def __init__(self, fn, target, sc, ex, rep):
        self.fn, self.target, self.sc, self.ex, self.rep = fn, target, sc, ex, rep
        irload.analyse_cfg(fn)
        a = ['%' + x.x for x in fn.args]
        self.A = dict(zip(('numchunks', 'rets', 'in', 'istride', 'ilens', 'out', 'ostride', 'olens'), a))
        A = self.A
        self.adr = {n: '{%s,+,%s}' % (A[n], st) for n, st in (('rets', 4), ('ilens', 8), ('olens', 8), ('in', A['istride']), ('out', A['ostride']))}
        self.calls = [i for i in insts(fn) if i.op in ('call', 'invoke') and callee(i) and CODEC.match(callee(i))]
        self.callres = {}

    def scev(self, v):
        if v.k == 'arg':
            return '%' + v.x
        if v.k == 'inst':
            return self.sc.get((self.fn.name, '%' + v.v.name), self.sc.get((self.fn.name, '%"' + v.v.name + '"'), '%' + v.v.name))
        if v.k == 'cint':
            return str(v.v)
        return '?' + v.k

    def run(self):
        fn = self.fn
        heads = [b for b in fn.blocks if b.id in fn.loops]
        inl = [h for h in heads if any(c.bb.id in fn.loops[h.id] for c in self.calls)]
        if len(inl) != 1:
            raise Unknown("%d loops with calls of the single-chunk function" % len(inl))
        self.head = inl[0]
        self.body = fn.loops[self.head.id]
        self.exits = self.ex.get((fn.name, '%' + self.head.name), {})
        # exit counts: the number of full iterations must be numchunks
        n = self.A['numchunks']
        work, seen = [], set()
        st0 = (fn.entry, None, frozenset(), ('out',))
        self.todo = [(fn.entry, None, {}, {}, None, frozenset(), None)]
        self.seen = set()
        self.steps = 0
        while self.todo:
            self.step(*self.todo.pop())

    # state: block, predecessor, env (inst id -> int|V), memory, iteration record, error history, loop position
    def step(self, b, pred, env, mem, it, E, _):
        self.steps += 1
        if self.steps > 20000:
            raise Unknown("too many abstract states")
        env = dict(env)
        # phis
        new = {}
        for i in b.insts[:b.nphi]:
            k = i.x.index(pred)
            new[i.id] = self.val(i.ops[k], env)
            if self.scev(Val_inst(i)).startswith('{') or b is self.head and not isinstance(new[i.id], int):
                new[i.id] = V(self.scev(Val_inst(i)))
        env.update(new)
        if b is self.head:
            if it is not None:
                self.end_iteration(it, mem, b)
            mem = {k: v for k, v in mem.items() if not k.startswith('{')}
            live = self.fn.live[b.id] | set(new)
            key = (tuple(sorted((k, v) for k, v in env.items() if k in live and isinstance(v, int))), tuple(sorted((k, v) for k, v in mem.items())), E)
            if key in self.seen:
                return
            self.seen.add(key)
            for il in ILENS:
                self.exec(b, dict(env), dict(mem), {'il': il, 'c': None, 'n': 0}, E)
            return
        self.exec(b, env, dict(mem), it, E)

    def end_iteration(self, it, mem, b):
        A = self.adr
        if it['il'] == ILENS[0]:
            if it['n']:
                raise Bad((it['call'], "a chunk whose length is SIZE_MAX (skipped) is passed to %s" % self.target))
            return
        if it['n'] == 0:
            raise Bad((self.head.insts[-1], "a chunk is not passed to %s" % self.target))
        if it['n'] > 1:
            raise Bad((it['call'], "a chunk is passed to %s more than once" % self.target))
        r = mem.get(A['rets'])
        if r != it['c']:
            raise Bad((it['call'], "the result of the chunk is not stored in rets[i] (stored: %s)" % (r,)))
        if mem.get(A['olens']) != V('olen_out'):
            raise Bad((it['call'], "olens[i] does not receive the output length of the chunk"))

    def val(self, v, env):
        if v.k == 'cint':
            return v.v
        if v.k in ('null', 'zero'):
            return 0
        if v.k == 'inst':
            if v.v.id in env:
                return env[v.v.id]
            return V(self.scev(v))
        if v.k == 'undef':
            return 0
        return V(self.scev(v))

    def exec(self, b, env, mem, it, E, start=0):
        inloop = b.id in self.body
        for k in range(max(start, b.nphi), len(b.insts)):
            i = b.insts[k]
            if i.op in ('br', 'switch', 'ret', 'unreachable', 'invoke', 'resume'):
                break
            if i.op == 'call':
                c = callee(i)
                if c and CODEC.match(c):
                    for res in CRES:
                        e2, m2, it2 = dict(env), dict(mem), dict(it) if it else {'il': None, 'c': None, 'n': 0}
                        E2 = self.codec(i, c, res, e2, m2, it2, E)
                        self.exec(b, e2, m2, it2, E2, k + 1)
                    return
            self.inst(i, env, mem, it)
        else:
            k = len(b.insts) - 1
        t = b.insts[-1]
        if t.op == 'ret':
            self.ret(t, env, it, E)
            return
        if t.op == 'invoke' and CODEC.match(callee(t) or ''):
            for res in CRES:
                e2, m2, it2 = dict(env), dict(mem), dict(it) if it else {'il': None, 'c': None, 'n': 0}
                E2 = self.codec(t, callee(t), res, e2, m2, it2, E)
                self.go(b, t.x['normal'], e2, m2, it2, E2)
            return
        if t.op in ('unreachable', 'resume'):
            return
        if t.op == 'br' and not t.ops:
            self.go(b, t.succ[0], env, mem, it, E)
            return
        if t.op == 'br':
            c = self.val(t.ops[0], env)
            if isinstance(c, int):
                tg, data = [t.succ[0] if c & 1 else t.succ[1]], True
            else:
                tg, data = list(t.succ), False
        elif t.op == 'switch':
            c = self.val(t.ops[0], env)
            if isinstance(c, int):
                tg, data = [dict(t.x[0]).get(c, t.x[1])], True
            else:
                tg, data = list(t.succ), False
        else:
            raise Unknown("terminator " + t.op)
        for s in tg:
            if inloop and s.id not in self.body:
                x = self.exits.get('%' + b.name) or (self.exits.get(None) if len(self.exits) == 1 else None)
                n = self.A['numchunks']
                if data:
                    raise Bad((t, "the loop ends depending on the result or length of a chunk: later chunks are not processed"))
                good = {n: 0, '(-1 + %s)' % n: 1, '(-1 + (1 umax %s))' % n: 1}
                if x is None or x.startswith('Unpredictable') or '***' in x:
                    x = self.count(t, s, env)
                if x is None:
                    raise Unknown("exit count of the loop is unknown")
                if x not in good:
                    raise Bad((t, "the loop does not run once per chunk: it continues %s times" % x))
                # is the chunk of this iteration already done when the exit is taken?
                if good[x] == 0 and it and it['n']:
                    raise Bad((t, "the loop runs once more than there are chunks"))
                if good[x] == 1:
                    if it and it['il'] != ILENS[0] and not it['n']:
                        raise Bad((t, "the last chunk is not processed"))
                    if it:
                        self.end_iteration(it, mem, b)
                self.go(b, s, env, mem, None, E)
            else:
                self.go(b, s, env, mem, it, E)

    def count(self, t, s, env):
        """exit count where scalar evolution gives none: a counter compared with numchunks, possibly combined with other conditions"""
        n = self.A['numchunks']
        if t.op != 'br':
            return None
        stop = t.succ[0] is s
        st, leaves = [(t.ops[0], stop)], []
        while st:
            v, pol = st.pop()
            if v.k != 'inst':
                continue
            i = v.v
            if i.op == 'icmp':
                leaves.append((i, pol))
            elif i.op in ('and', 'or', 'select', 'freeze'):
                st += [(o, pol) for o in i.ops]
            elif i.op == 'xor':
                st.append((i.ops[0], not pol))
        r = set()
        for i, pol in leaves:
            a, b = self.scev(i.ops[0]), self.scev(i.ops[1])
            pred = i.x
            if pol:         # condition under which the loop goes on
                pred = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult'}.get(pred)
            if a == n:
                a, b = b, a
                pred = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pred, pred)
            if b == n and a in ('{0,+,1}', '{1,+,1}') and pred in ('ult', 'ne', 'ule'):
                d = int(a[1]) - (pred == 'ule')
                r.add({0: n, 1: '(-1 + %s)' % n, -1: '(1 + %s)' % n}[d])
        return r.pop() if len(r) == 1 else None

    def go(self, b, s, env, mem, it, E):
        self.todo.append((s, b, env, mem, it, E, None))

    def codec(self, i, c, res, env, mem, it, E):
        if c != self.target:
            raise Bad((i, "calls %s instead of %s" % (c, self.target)))
        if i.bb.id not in self.body:
            raise Unknown("call outside the chunk loop")
        A = self.adr
        a = [self.val(x, env) for x in i.ops]
        if len(a) != 4:
            raise Unknown("unexpected signature")
        for k, want, what in ((0, A['in'], 'input'), (2, A['out'], 'output')):
            if a[k] != want:
                raise Bad((i, "the %s pointer of chunk i is %s, it must be %s (start, +, step per chunk)" % (what, a[k], want)))
        if a[1] != it['il']:
            raise Bad((i, "the length passed for chunk i is not ilens[i]"))
        p = a[3]
        cap = mem.get(p, V('olen_in') if p == A['olens'] else None)
        if not (p == A['olens'] or self.local(i.ops[3])):
            raise Bad((i, "the output length pointer of chunk i is %s, it must be %s" % (p, A['olens'])))
        if cap != V('olen_in'):
            raise Bad((i, "the capacity passed for chunk i is not olens[i]"))
        mem[p] = V('olen_out')
        it['n'] += 1
        it['c'] = res
        it['call'] = i
        env[i.id] = res
        if res not in (0, ERR['ENOSPC']):
            E = E | {res}
        return E

    def local(self, v):
        r = root(v)
        return r.k == 'inst' and r.v.op == 'alloca'

    def inst(self, i, env, mem, it):
        op = i.op
        A = self.adr
        if op == 'load':
            a = self.val(i.ops[0], env)
            if a in mem:
                r = mem[a]
            elif a == A['ilens'] and it:
                r = it['il']
            elif a == A['olens']:
                r = V('olen_in')
            else:
                r = V('%' + i.name)
            env[i.id] = r
        elif op == 'store':
            a = self.val(i.ops[1], env)
            mem[a] = self.val(i.ops[0], env)
        elif op in ('call',):
            c = callee(i) or ''
            if c.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias')):
                return
            m = re.match(r'llvm\.([us])(min|max)\.', c)
            if m:
                a, b = self.val(i.ops[0], env), self.val(i.ops[1], env)
                if isinstance(a, int) and isinstance(b, int):
                    f = (lambda x: x) if m.group(1) == 'u' else (lambda x: sg(x, i.ty.w))
                    env[i.id] = (min if m.group(2) == 'min' else max)((a, b), key=f)
                    return
                env[i.id] = V(self.scev(Val_inst(i)))
                return
            # something else that may write memory: what it may reach is no longer known
            g = self.fn.mod.funcs.get(c)
            if any(o.ty is not None and o.ty.k == 'ptr' for o in i.ops) and not c.startswith('llvm.'):
                raise Unknown("call of %s" % short(c) if c else "indirect call")
            if i.ty.k != 'void':
                env[i.id] = V(self.scev(Val_inst(i)))
        elif op in ('alloca', 'getelementptr'):
            env[i.id] = V(self.scev(Val_inst(i)))
        else:
            a = [self.val(o, env) for o in i.ops]
            if all(isinstance(x, int) for x in a):
                r = fold(i, a)
            elif op == 'select' and isinstance(a[0], int):
                r = a[1] if a[0] & 1 else a[2]
            elif op in ('freeze',):
                r = a[0]
            elif op == 'select':
                r = a[1] if a[1] == a[2] else None
            elif op == 'and' and 0 in a or op == 'or' and i.ty.w == 1 and 1 in a:
                r = 0 if op == 'and' else 1
            elif op in ('and', 'or', 'xor') and i.ty.w == 1 and (0 in a or 1 in a and op == 'and'):
                r = next(x for x in a if not isinstance(x, int))
            else:
                r = None
            env[i.id] = r if r is not None else V(self.scev(Val_inst(i)))

    def ret(self, t, env, it, E):
        v = self.val(t.ops[0], env)
        if not isinstance(v, int):
            raise Unknown("returned value is not determined by the results of the chunks")
        if v == 0 and E:
            raise Bad((t, "returns 0 although a chunk failed with an error other than -ENOSPC"))
        if v != 0 and not E:
            raise Bad((t, "returns an error (%d) although every chunk succeeded or only ran out of output space" % sg(v, 32)))
        if v != 0 and v not in E:
            raise Bad((t, "returns an error that no chunk reported"))


def Val_inst(i):
    return irload.Val('inst', i, i.ty)


def sg(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x


def fold(i, a):
    op = i.op
    w = i.ty.w if i.ty.k == 'int' else 64
    M = (1 << w) - 1
    ow = i.ops[0].ty.w or 64
    if op == 'icmp':
        x, y = a
        s = (sg(x, ow), sg(y, ow))
        return int({'eq': x == y, 'ne': x != y, 'ugt': x > y, 'uge': x >= y, 'ult': x < y, 'ule': x <= y, 'sgt': s[0] > s[1], 'sge': s[0] >= s[1],
                    'slt': s[0] < s[1], 'sle': s[0] <= s[1]}[i.x])
    if op == 'select':
        return a[1] if a[0] & 1 else a[2]
    f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'and': lambda x, y: x & y, 'or': lambda x, y: x | y,
         'xor': lambda x, y: x ^ y, 'shl': lambda x, y: x << min(y, 64), 'lshr': lambda x, y: x >> min(y, 64),
         'ashr': lambda x, y: sg(x, w) >> min(y, 64)}
    if op in f:
        return f[op](*a) & M
    if op in ('zext', 'trunc', 'freeze', 'ptrtoint', 'inttoptr', 'bitcast'):
        return a[0] & M
    if op == 'sext':
        return sg(a[0], ow) & M
    return None


def check_chunked(rep):
    import concurrent.futures
    build.workdir()
    with concurrent.futures.ThreadPoolExecutor(8) as p:
        mods = list(p.map(prepare, SRCS))
    found = set()
    rep.notes.append("Every chunked function is inlined down to the calls of the single-chunk function; LLVM's scalar evolution gives the address of each "
                     "access as a recurrence in the chunk number, which must be (base, +, stride); the number of iterations must be numchunks; the loop body "
                     "is then evaluated as a finite automaton over the chunk length class {SIZE_MAX, other}, the chunk result class {0, -ENOSPC, two different "
                     "other errors} and the set of errors seen so far, to a fixpoint.")
    for path, sc, ex in mods:
        u = Unit(path)
        for f in u.funcs.values():
            m = re.match(r'^((?:opt)?sw842_(?:de)?compress)_chunked$', f.name)
            if not m:
                continue
            found.add(f.name)
            rep.funcs.add(f.name)
            w = Walk(f, m.group(1), sc, ex, rep)
            try:
                w.run()
                rep.cov.setdefault('abstract_states', {})[f.name] = w.steps
                for k in ('one call per chunk', 'input and output addresses', 'length and capacity', 'result and length stored', 'skipped chunks', 'combined result'):
                    rep.obligation('%s: %s' % (f.name, k))
            except Bad as e:
                i, msg = e.args[0]
                rep.obligation(f.name)
                rep.violation((i.file.replace(build.REPO + '/', ''), i.line, f.name), msg, "%s: %s" % (f.name, msg))
            except Unknown as e:
                rep.notes.append("%s: not decided (%s)." % (f.name, e))
                print("note: %s not decided: %s" % (f.name, e))
    for fam in FAMS:
        for op in ('compress', 'decompress'):
            n = '%s842_%s_chunked' % (fam, op)
            if n not in found:
                rep.notes.append("%s: no definition found." % n)


# ------------------------------------------------------------------ P21
SLOTS = ('compress', 'decompress', 'compress_chunked', 'decompress_chunked')


def check_tables(rep):
    rep.notes.append("The object returned by each get_*_implementation function is identified, shown to be written by nobody in its unit, and its initialiser "
                     "compared slot by slot with the functions of that implementation; alignments must be powers of two and required <= preferred.")
    for p in build.irs(SRCS):
        u = Unit(p)
        for f in u.funcs.values():
            m = re.match(r'^get_(\w*842)_implementation$', f.name)
            if not m:
                continue
            rep.funcs.add(f.name)
            rs = set()
            for i in insts(f):
                if i.op == 'ret' and i.ops:
                    rs.add(i.ops[0].v if i.ops[0].k == 'gvar' else None)
            if len(rs) != 1 or None in rs:
                rep.notes.append("%s: returned object not identified, not decided." % f.name)
                continue
            g = u.m.gvars[rs.pop()]
            where = (next((i.file for i in insts(f) if i.file), '?').replace(build.REPO + '/', ''), f.line, f.name)
            if g.decl or g.init is None or g.init.k != 'agg':
                rep.notes.append("%s: no constant initialiser." % f.name)
                continue
            for h in u.funcs.values():
                for i in insts(h):
                    if i.op == 'store' and (uses_gvar(i.ops[1], g.name)):
                        rep.violation(i, "writes to the implementation table returned by %s" % f.name)
                    if i.op in ('call', 'invoke') and any(uses_gvar(o, g.name) for o in i.ops):
                        rep.violation(i, "passes the implementation table of %s to a function that may write it" % f.name) if not g.const and \
                            (callee(i) or '').startswith(('llvm.mem',)) and uses_gvar(i.ops[0], g.name) else None
            for k, s in enumerate(SLOTS):
                v = g.init.v[k]
                want = '%s_%s' % (m.group(1), s)
                rep.obligation("%s.%s = %s" % (f.name, s, want))
                got = v.v if v.k == 'func' else None
                if got is None and v.k in ('null', 'zero'):
                    rep.violation(where, "slot %s of the implementation table is null" % s)
                elif got is not None and got != want and got.startswith(tuple(x + '842_' for x in ('sw', 'optsw', 'cl', 'cuda', 'hw', 'aix'))):
                    rep.violation(where, "slot %s of the implementation table holds %s instead of %s" % (s, got, want))
            al = [g.init.v[4], g.init.v[5]] if len(g.init.v) >= 6 else []
            if len(al) == 2 and all(a.k in ('cint', 'zero') for a in al):
                r, pr = [a.v or 0 for a in al]
                rep.obligation("%s alignments %d, %d" % (f.name, r, pr))
                if r == 0 or pr == 0 or r & (r - 1) or pr & (pr - 1) or pr < r:
                    rep.violation(where, "alignments of the implementation table are not powers of two with required <= preferred (%d, %d)" % (r, pr))
