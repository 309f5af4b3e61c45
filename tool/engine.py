"""Control part of the abstract interpreter: worklist, partitioning, joins, calls."""
from absdom import *
import absdom
import irload
from interp import Interp, konst, IV, PV, AG, TOP, Budget, Restart, Unsupported, INTTY, cnot, CFALSE, CTRUE
from math import gcd

TERMINATING = {'abort', 'exit', '_exit', '__assert_fail', '_ZSt9terminatev', '__cxa_rethrow', '__assert',
               '_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv', '__cxa_bad_cast', 'llvm.trap'}
HARMLESS = {'fprintf', 'printf', 'fputs', 'puts', 'fputc', 'putchar', 'perror', 'fwrite', 'fflush', 'vfprintf'}


def loop_order(fn):
    """block order in which loop bodies precede loop exits"""
    if getattr(fn, 'ident', None) is not None and isinstance(fn.ident, dict) and 'order' in fn.ident:
        return fn.ident['order']
    heads = fn.loops
    inl = {}
    for h, body in heads.items():
        for b in body:
            inl.setdefault(b, set()).add(h)
    seen = set([fn.entry.id])
    post = []

    def succs(b):
        mine = inl.get(b.id, set())
        return sorted(b.succ, key=lambda s: (len(mine & inl.get(s.id, set())), 0))
    stack = [(fn.entry, iter(succs(fn.entry)))]
    while stack:
        b, it = stack[-1]
        for s in it:
            if s.id not in seen:
                seen.add(s.id)
                stack.append((s, iter(succs(s))))
                break
        else:
            post.append(b)
            stack.pop()
    post.reverse()
    order = {b.id: i for i, b in enumerate(post)}
    fn.ident = {'order': order, 'inl': inl}
    return order


def bitsyms(bits, r):
    """symbols linof would use for these bits"""
    n = len(bits)
    i = 0
    T = BT.t
    while i < n:
        b = bits[i]
        if b < 2:
            i += 1
            continue
        t = T[b]
        j = i + 1
        if t[0] == 'l':
            e, k0 = t[1], t[2]
            while j < n and bits[j] >= 2:
                u = T[bits[j]]
                if u[0] == 'l' and u[1] == e and u[2] == k0 + (j - i):
                    j += 1
                else:
                    break
        else:
            while j < n and bits[j] >= 2 and T[bits[j]][0] != 'l':
                j += 1
        s = SY.memo.get(('b', tuple(bits[i:j])))
        if s is not None:
            r.add(s)
        i = j


LOTHR = (8, 4, 2, 1, 0)         # thresholds for widening lower bounds

class Head:
    __slots__ = ('states', 'visits', 'phis', 'sk')

    def __init__(self):
        self.states = {}
        self.visits = {}
        self.phis = {}
        self.sk = {}


class Engine(Interp):

    # ---------------------------------------------------------- partition keys
    def head_info(self, blk):
        fn = blk.fn
        info = fn.ident.get(('h', blk.id))
        if info is not None:
            return info
        body = fn.loops[blk.id]
        phis = {i.id: i for i in blk.insts[:blk.nphi]}
        # counters: phis compared with a constant somewhere in the loop, directly or after +const
        counters = set()
        compared = set()
        inloop = set()
        derived = {}
        for b in fn.blocks:
            if b.id in body:
                for i in b.insts:
                    inloop.add(i.id)
                    if i.op in ('add', 'sub', 'zext', 'sext', 'trunc') and i.ops[0].k == 'inst':
                        src = i.ops[0].v.id
                        src = derived.get(src, src)
                        if src in phis:
                            derived[i.id] = src
        cand = []
        for b in fn.blocks:
            if b.id not in body:
                continue
            for i in b.insts:
                if i.op == 'icmp':
                    ok = True
                    for o in i.ops:
                        if o.k == 'inst' and o.v.id in inloop and o.v.id not in phis:
                            ok = False
                    if ok and i not in cand:
                        cand.append(i)
                    for x, y in ((0, 1), (1, 0)):
                        if i.ops[x].k == 'inst' and i.ops[y].k == 'cint':
                            s = i.ops[x].v.id
                            s = derived.get(s, s)
                            if s in phis:
                                compared.add(s)
                                if any(t.op == 'br' and t.ops and self.feeds(i, t.ops[0]) and
                                       any(z.id not in body for z in t.succ)
                                       for bb in fn.blocks if bb.id in body for t in bb.insts[-1:]):
                                    counters.add(s)
        # accumulators: incremented round the loop, but not what ends it
        accs = set()
        for p in phis.values():
            if p.id in counters or p.ty.k != 'int':
                continue
            seen = set()
            st = [o.v for o, bb in zip(p.ops, p.x) if bb.id in body and o.k == 'inst']
            inc = False
            back = False
            while st:
                q = st.pop()
                if q.id in seen:
                    continue
                seen.add(q.id)
                if q.id == p.id:
                    back = True
                    continue
                if q.op in ('phi', 'select', 'trunc', 'zext', 'sext', 'add', 'sub'):
                    if q.op in ('add', 'sub'):
                        inc = True
                    st += [o.v for o in q.ops if o.k == 'inst' and o.v.id in inloop]
            if inc and back:
                accs.add(p.id)
        info = {'counters': counters, 'accs': accs, 'inloop': inloop, 'phis': set(phis), 'cand': cand}
        fn.ident[('h', blk.id)] = info
        return info

    def feeds(self, i, v):
        """does compare i decide condition v (through and/or/select/xor)?"""
        st = [v]
        seen = set()
        while st:
            o = st.pop()
            if o.k != 'inst' or o.v.id in seen:
                continue
            seen.add(o.v.id)
            if o.v is i:
                return True
            if o.v.op in ('and', 'or', 'xor', 'select', 'zext', 'trunc', 'icmp', 'phi') and len(seen) < 20:
                st += o.v.ops
        return False

    def memkey(self, st, key, stats, point, limit, depth=None):
        """constants held in memory cells that are read later (as far as known)"""
        ld = self.livedims.get(point, ())
        allk = self.collect
        skipped = {}
        for oid in sorted(st.mem, key=str):
            o = st.mem[oid]
            if oid == 'G' or o.kind in ('in', 'out') or (depth is not None and o.depth > depth):
                continue
            if o.state != 'live':
                key.append((oid, o.state))
            cs = o.cells
            for off in sorted(cs):
                v = cs[off][1]
                if isinstance(v, PV):
                    x = 'unk' if v.obj == 'null' else v.obj
                elif isinstance(v, IV):
                    if v.w > 32:
                        continue
                    x = self.kconst(st, v)
                else:
                    continue
                if allk or (oid, off) in ld:
                    if x is not None and (isinstance(v, PV) or self.kok(stats, (oid, off), x, limit)):
                        key.append((oid, off, x))
                else:
                    skipped[(oid, off)] = x
        return skipped

    def data_dims(self, sts, stats):
        """int-sized cells that vary together in numbers are data, not control: do not partition on them"""
        ds = set()
        for d, x in stats.items():
            if d[0] != 'e' and x is not False and len(x) > 1:
                for s in sts:
                    o = s.mem.get(d[0])
                    c = o.cells.get(d[1]) if o is not None else None
                    if c is not None and c[0] == 4:
                        ds.add(d)
                        break
        return ds if len(ds) >= 3 else ()

    def note_lost(self, point, sk):
        l = self.lost.setdefault(point, set())
        ld = self.livedims.setdefault(point, set())
        a = sk[0]
        for b in sk[1:]:
            for k in a:
                if k not in l and a[k] != b.get(k):
                    l.add(k)
                    if k in ld:
                        self.new_dims += 1

    capkey = None

    def keyof(self, st, blk, stats, head):
        key = []
        fr = st.frames[-1]
        live = blk.fn.live[blk.id]
        hi = self.head_info(blk) if head else None
        ids = [i for i in live if not isinstance(i, tuple)]
        ids += [i.id for i in blk.insts[:blk.nphi]]
        for i in sorted(set(ids)):
            v = fr.get(i)
            if v is None:
                continue
            if isinstance(v, PV):
                key.append((i, 'unk' if v.obj == 'null' else v.obj))
                continue
            if not isinstance(v, IV):
                continue
            if head and i in hi['phis'] and v.w > 32 and i not in hi['counters']:
                continue
            c = self.kconst(st, v)
            if c is not None and self.kok(stats, ('e', i), c,
                                          self.K if not (head and i in hi['phis'] and i not in hi['counters']) else 2 if i in hi['accs'] else self.KH):
                key.append((i, c))
        point = (blk.fn.name, blk.id)
        sk = self.memkey(st, key, stats, point, self.KH if head else self.K)
        if not head and self.capkey is not None:
            key.append(('cap', self.capkey(self, st)))
        if self.events_on:
            key.append(st.log)
        key.append(st.tags)
        return tuple(key), sk

    def kconst(self, st, v):
        if v.cond is not None:
            r = self.ceval(st, v.cond)
            return None if r is None else int(r)
        if v.lin is not None:
            e = v.lin
            if e[1]:
                e = st.norm(e)
                if e[1]:
                    return None
            return e[0] % (1 << v.w)
        if v.bits is not None:
            for b in v.bits:
                if b >= 2:
                    break
            else:
                return sum(b << i for i, b in enumerate(v.bits))
            e = self.linof(st, v.bits)
            if not e[1]:
                return e[0]
        return None

    def kok(self, stats, path, c, limit):
        s = stats.get(path)
        if s is None:
            s = stats[path] = set()
        elif s is False:
            return False
        s.add(c)
        if len(s) > limit:
            stats[path] = False
            return False
        return True

    # ---------------------------------------------------------- calls
    def run_function(self, fn, args, st):
        """-> list of (kind, state, value)"""
        irload.analyse_cfg(fn)
        order = loop_order(fn)
        self.visited_fns.add(fn.name)
        if len(self.callstack) > self.maxdepth:
            raise Unsupported("call depth exceeded in %s" % fn.name)
        depth = len(st.frames)
        st.frames.append({('a', i): v for i, v in enumerate(args)})
        # cond values crossing a call boundary are decided first by the caller
        pending = {fn.entry.id: [st]}
        blocks = {b.id: b for b in fn.blocks}
        heads = {}
        stats = {}
        out = []
        while pending:
            bid = min(pending, key=lambda b: order[b])
            blk = blocks[bid]
            sts = pending.pop(bid)
            if bid in fn.loops:
                todo = self.head_arrive(blk, sts, heads, stats)
            elif len(sts) > 1:
                todo = self.merge(blk, sts, stats)
            else:
                todo = sts
                if self.collect and len(blk.pred) > 1:
                    s = sts[0]
                    self.clock += 1
                    s.passed = dict(s.passed)
                    s.passed[(fn.name, blk.id)] = self.clock
                    self.clock += 1
            for s in todo:
                self.prune(s, blk)
                self.run_block(blk, s, pending, out)
        res = []
        if len(out) > 1 or self.collect:
            self.curfn = fn.name
            out = self.merge_returns(out)
        for kind, s, v in out:
            s.frames.pop()
            s.frames = list(s.frames)
            if s.frames:
                s.frames[-1] = dict(s.frames[-1])
            dead = [o for o, m in s.mem.items() if m.depth > depth]
            for o in dead:
                del s.mem[o]
            res.append((kind, s, v))
        return res

    def prune(self, st, blk):
        live = blk.fn.live[blk.id]
        fr = st.frames[-1]
        nphi = set(i.id for i in blk.insts[:blk.nphi])
        st.frames[-1] = {k: v for k, v in fr.items() if k in live or k in nphi}

    def merge_returns(self, out):
        groups = {}
        stats = {}
        keys = []
        sks = []
        for kind, s, v in out:
            key = [kind]
            if isinstance(v, IV):
                key.append(('r', self.kconst(s, v)))
            elif isinstance(v, PV):
                key.append(('r', v.obj))
            elif isinstance(v, tuple):
                key.append(v)
            sk = self.memkey(s, key, stats, ('ret', self.curfn), self.K, len(s.frames) - 1)
            sks.append(sk)
            if self.events_on:
                key.append(s.log)
            key.append(s.tags)
            keys.append(tuple(key))
        ds = self.data_dims([s for _, s, _ in out], stats)
        if ds:
            keys = [tuple(x for x in k if not (isinstance(x, tuple) and len(x) == 3 and (x[0], x[1]) in ds)) for k in keys]
        gsk = {}
        self.clock += 1
        point = ('ret', self.curfn)
        for (kind, s, v), key, sk in zip(out, keys, sks):
            gsk.setdefault(key, []).append(sk)
            s.passed = dict(s.passed)
            s.passed[point] = self.clock
        for l in gsk.values():
            if len(l) > 1:
                self.note_lost(point, l)
        self.clock += 1
        for (kind, s, v), key in zip(out, keys):
            g = groups.get(key)
            # drop this frame's registers
            s.frames[-1] = {'ret': v} if isinstance(v, (IV, PV, AG)) else {}
            dead = [o for o, m in s.mem.items() if m.depth > len(s.frames) - 1]
            for o in dead:
                del s.mem[o]
            if g is None:
                groups[key] = (kind, s, v)
            else:
                j, _ = self.join(g[1], s, None, False, 0)
                groups[key] = (kind, j, j.frames[-1].get('ret', v))
        return list(groups.values())

    def merge(self, blk, sts, stats):
        groups = {}
        order = []
        keys = [self.keyof(s, blk, stats, False) for s in sts]
        if any(x is False for x in stats.values()):
            keys = [self.keyof(s, blk, stats, False) for s in sts]
        ds = self.data_dims(sts, stats)
        if ds:
            st2 = dict(stats)
            for d in ds:
                st2[d] = False
            keys = [self.keyof(s, blk, st2, False) for s in sts]
        keys = self.passpoint(blk, sts, keys, {})
        for s, key in zip(sts, keys):
            g = groups.get(key)
            if g is None:
                groups[key] = s
                order.append(key)
            else:
                self.prune(g, blk)
                self.prune(s, blk)
                groups[key], _ = self.join(g, s, blk, False, 0)
        return [groups[k] for k in order]

    def passpoint(self, blk, sts, keys, hsk):
        point = (blk.fn.name, blk.id)
        gsk = {}
        self.clock += 1
        for s, (key, sk) in zip(sts, keys):
            gsk.setdefault(key, []).append(sk)
            s.passed = dict(s.passed)
            s.passed[point] = self.clock
        self.clock += 1
        for k, l in gsk.items():
            if k in hsk:
                l = [hsk[k]] + l
            elif hsk is not None:
                hsk[k] = l[0]
            if len(l) > 1:
                self.note_lost(point, l)
        return [k for k, _ in keys]

    def head_arrive(self, blk, sts, heads, stats):
        h = heads.get(blk.id)
        if h is None:
            h = heads[blk.id] = Head()
            self.heads_store.setdefault((blk.fn.name, blk.id), []).append((h, tuple(self.callstack)))
        work = []
        hstats = stats.setdefault(('H', blk.id), {})
        nfalse = sum(1 for x in hstats.values() if x is False)
        for s in sts:
            self.prune(s, blk)
        if self.on_head is not None:
            sts = self.on_head(self, blk, sts)
        keys = [self.keyof(s, blk, hstats, True) for s in sts]
        for d in self.data_dims(sts, hstats):
            hstats[d] = False
        if sum(1 for x in hstats.values() if x is False) != nfalse:
            # a partition dimension was dropped: re-key stored states
            old = list(h.states.items())
            h.states = {}
            h.visits = {}
            h.phis = {}
            h.sk = {}
            sts = [s for _, s in old] + list(sts)
            keys = [self.keyof(s, blk, hstats, True) for s in sts]
        keys = self.passpoint(blk, sts, keys, h.sk)
        dirty = {}
        groups = {}
        for s, key in zip(sts, keys):
            groups.setdefault(key, []).append(s)
        for key, ss in groups.items():
            g = h.states.get(key)
            if g is None:
                s = ss[0]
                for x in ss[1:]:
                    s, _ = self.join(s, x, blk, False, 0)
                h.states[key] = s
                h.visits[key] = 0
                h.phis[key] = {}
                dirty[key] = True
                continue
            ss = [x for x in ss if not self.included(x, g, h.phis[key], blk)]
            if not ss:
                continue
            s = ss[0]
            for x in ss[1:]:
                s, _ = self.join(s, x, blk, False, 0)
            h.visits[key] += 1
            if self.trace:
                print("head", blk.fn.name, blk.name, "visit", h.visits[key], len(h.states))
            if h.visits[key] > 60:
                raise Unsupported("no convergence at %s:%s" % (blk.fn.name, blk.name))
            j, phis = self.join(g, s, blk, True, h.visits[key])
            h.states[key] = j
            h.phis[key] = phis
            dirty[key] = True
        return [h.states[k].copy() for k in dirty]

    # ---------------------------------------------------------- join
    def cells_of(self, A, B, blk):
        """list of (path, va, vb) that differ syntactically; also builds joined frames/mem skeleton"""
        diffs = []
        frames = []
        n = len(A.frames)
        for i in range(n):
            fa, fb = A.frames[i], B.frames[i]
            if fa is fb:
                frames.append(fa)
                continue
            d = {}
            for k, va in fa.items():
                vb = fb.get(k)
                if vb is None:
                    continue
                if va is vb:
                    d[k] = va
                else:
                    d[k] = va
                    diffs.append((('f', i, k), va, vb))
            frames.append(d)
        mem = {}
        for oid, oa in A.mem.items():
            ob = B.mem.get(oid)
            if ob is None:
                continue
            if oa is ob:
                mem[oid] = oa
                continue
            o = oa.copy()
            mem[oid] = o
            for q, t in ob.wt.items():
                u = o.wt.get(q)
                if u is None or t < u:
                    o.wt[q] = t
            if oa.state != ob.state:
                o.state = 'freed' if 'freed' in (oa.state, ob.state) else oa.state
            o.cells = {}
            keys = set(oa.cells) | set(ob.cells)
            drop = []
            for off in sorted(keys):
                ca, cb = oa.cells.get(off), ob.cells.get(off)
                if ca is not None and cb is not None:
                    if ca[0] != cb[0]:
                        drop.append((off, max(ca[0], cb[0])))
                        continue
                    o.cells[off] = ca
                    if ca[1] is not cb[1]:
                        diffs.append((('m', oid, off), ca[1], cb[1]))
                else:
                    c, other, ost = (ca, ob, B) if ca is not None else (cb, oa, A)
                    sz, v = c
                    ov = None
                    if isinstance(v, IV):
                        ov = self.cread(ost, other, off, INTTY.get(8 * sz) or INTTY[64], sz) if sz in (1, 2, 4, 8) else None
                    elif isinstance(v, PV):
                        t = irload.Ty()
                        t.k = 'ptr'
                        t.store = t.size = 8
                        t.w = None
                        ov = self.cread(ost, other, off, t, sz)
                    if ov is None:
                        # is there a fill covering on both sides?  smash conservatively
                        drop.append((off, sz))
                        continue
                    o.cells[off] = (sz, v)
                    diffs.append((('m', oid, off), v, ov) if ca is not None else (('m', oid, off), ov, v))
            # fills
            if oa.fills != ob.fills or drop:
                nf = []
                done = set()
                for f in oa.fills:
                    if f in ob.fills:
                        nf.append(f)
                        continue
                    for g in ob.fills:
                        if f[0] == g[0] and f[1] == g[1]:
                            if f[3] == ('zero',) and g[3] != ('zero',):
                                nf.append((f[0], f[1], g[2], self.hull([(0, 0), g[3]], 8 * g[2])))
                            elif g[3] == ('zero',) and f[3] != ('zero',):
                                nf.append((f[0], f[1], f[2], self.hull([(0, 0), f[3]], 8 * f[2])))
                            elif f[2] == g[2]:
                                nf.append((f[0], f[1], f[2], self.hull([f[3], g[3]], 8 * f[2])))
                            done.add(g)
                            done.add(f)
                # unmatched fills: element-hull of everything in that region of both objects
                for side, X, Y, sx, sy in ((oa, A, B, oa, ob), (ob, B, A, ob, oa)):
                    for f in side.fills:
                        if f in nf or f in done:
                            continue
                        if any(q[0] < f[1] and q[1] > f[0] for q in nf):
                            continue
                        es = f[2]
                        if es == 0:
                            other = sy
                            cand = [q[2] for q in other.fills if q[0] < f[1] and q[1] > f[0] and q[2]] + \
                                   [c[0] for q, c in other.cells.items() if f[0] <= q < f[1]]
                            es = cand[0] if cand else 1
                        ra = self.region_summary(X, sx, f[0], f[1], 8 * es)
                        rb = self.region_summary(Y, sy, f[0], f[1], 8 * es)
                        if ra is None:
                            continue
                        if rb is None:
                            # other side has no known content there (uninitialised): see assumption on initialisation
                            anyc = any(q < f[1] and q + c[0] > f[0] for q, c in sy.cells.items()) or \
                                any(q[0] < f[1] and q[1] > f[0] for q in sy.fills)
                            if anyc:
                                continue
                            rb = ra
                        nf.append((f[0], f[1], es, self.hull([ra, rb], 8 * es)))
                        for q in [q for q in o.cells if q < f[1] and q + o.cells[q][0] > f[0]]:
                            del o.cells[q]
                            diffs = [d for d in diffs if d[0] != ('m', oid, q)]
                o.fills = tuple(sorted(set(nf), key=lambda f: (f[0], f[1])))
            if oa.sym is not ob.sym:
                if oa.sym != ob.sym or oa.ro != ob.ro:
                    sa, sb = oa.sym or {}, ob.sym or {}
                    nm = {}
                    for base, d in sa.items():
                        e = sb.get(base)
                        if e:
                            c = {k: x for k, x in d.items() if e.get(k) == x}
                            if c:
                                nm[base] = c
                    o.sym = nm
                    o.ro = 'clob'
        return diffs, frames, mem

    def join(self, A, B, blk, widen, visits):
        diffs, frames, mem = self.cells_of(A, B, blk)
        J = State()
        J.frames = list(frames)
        J.mem = mem
        J.log = A.log
        J.tags = A.tags
        J.passed = dict(A.passed)
        for k, t in B.passed.items():
            if J.passed.get(k, 0) < t:
                J.passed[k] = t
        # symbol facts common to both
        J.eq = {}
        eqd = []
        for s, q in A.eq.items():
            if B.eq.get(s) == q:
                J.eq[s] = q
            else:
                eqd.append((s, q))
        for s, q in B.eq.items():
            if s not in J.eq and s not in A.eq:
                eqd.append((s, q))
        # keep solved system consistent
        J.eq = {s: q for s, q in J.eq.items()}
        for s in set(A.iv) | set(B.iv) | set(s for s, _ in eqd):
            if s in J.eq:
                continue
            ra = (A.eq[s][0],) * 2 if s in A.eq and not A.eq[s][1] else (
                (A.ilo(A.eq[s]), A.ihi(A.eq[s])) if s in A.eq else A.rng(s))
            rb = (B.eq[s][0],) * 2 if s in B.eq and not B.eq[s][1] else (
                (B.ilo(B.eq[s]), B.ihi(B.eq[s])) if s in B.eq else B.rng(s))
            r = (min(ra[0], rb[0]), max(ra[1], rb[1]))
            b = SY.rng[s]
            r = (max(r[0], b[0]), min(r[1], b[1]))
            if widen and visits >= 2:
                if r[0] < ra[0]:
                    r = (max(b[0], next((k for k in LOTHR if r[0] >= k), b[0])), r[1])
                if r[1] > ra[1]:
                    r = (r[0], b[1])
            if r != b:
                J.iv[s] = r
        basis = []      # (delta, phi expr in J, xa, xb, v)
        phis = {}
        memo = {}
        post = []
        ctx = self

        def reduce_(d):
            num = {('c',): d[0]} if d[0] else {}
            for s, k in d[1]:
                num[s] = k
            den = 1
            comb = []
            for (piv, bv, expr, xa, g_, c_) in basis:
                k = num.get(piv, 0)
                if k:
                    p = bv[piv]
                    # num*? : num - (k/p)*bv
                    gg = gcd(abs(k), abs(p))
                    m1, m2 = p // gg, k // gg
                    if m1 < 0:
                        m1, m2 = -m1, -m2
                    nn = {}
                    for s in set(num) | set(bv):
                        x = num.get(s, 0) * m1 - bv.get(s, 0) * m2
                        if x:
                            nn[s] = x
                    num = nn
                    comb = [(cm * m1, i) for cm, i in comb]
                    comb.append((m2, (expr, xa)))
                    den *= m1
            return num, den, comb

        # symbols solved differently on the two sides are affine coordinates themselves
        for s in sorted(set(x for x, _ in eqd)):
            if s not in SY.param:
                continue
            na, nb = A.norm(sym(s)), B.norm(sym(s))
            num, den, comb = reduce_(lsub(nb, na))
            if not num:
                continue
            piv = next((x for x in num if x != ('c',)), ('c',))
            re, rxa = lmul(sym(s), den), lmul(na, den)
            for m, (expr, xa2) in comb:
                re = lsub(re, lmul(expr, m))
                rxa = lsub(rxa, lmul(xa2, m))
            basis.append((piv, num, re, rxa, 1, 0))

        def joinlin(a, b, path, w, adr=None):
            key = (a, b)
            r = memo.get(key)
            if r is not None:
                return r
            na, nb = A.norm(a), B.norm(b)
            d = lsub(nb, na)
            if a == b or (not d[1] and d[0] == 0):
                # same expression on both sides (after each side's own equalities)
                r = a if a == b else na
                memo[key] = r
                return r
            # reduce by basis
            num, den, comb = reduce_(d)
            if not num:
                # den*cell = den*na + sum m*(expr - xa)
                e = lmul(na, den)
                for m, (expr, xa) in comb:
                    e = ladd(e, lmul(lsub(expr, xa), m))
                if den == 1:
                    r = e
                elif e[0] % den == 0 and all(k % den == 0 for _, k in e[1]):
                    r = (e[0] // den, tuple((s, k // den) for s, k in e[1]))
                else:
                    v = SY.new('phi', -INF, INF)
                    r = sym(v)
                    post.append(('eq', lsub(lmul(r, den), e), v, na, nb))
                    phis[v] = (path, 1, 0, ZERO)
                post.append(('dep', r, na, nb, w))
                memo[key] = r
                return r
            # new basis element; scale for congruence
            g = 0
            for _, k in na[1]:
                g = gcd(g, k)
            for _, k in nb[1]:
                g = gcd(g, k)
            g = gcd(g, d[0])
            g = g or 1
            c = na[0] % g
            base = ZERO
            na0, nb0 = na, nb
            if (nb[0] - c) % g:
                g, c = 1, 0
            if g == 1 and adr is not None:
                # both sides address-aligned?
                ea, eb = A.norm(ladd(na, sym(adr))), B.norm(ladd(nb, sym(adr)))
                g2 = 0
                for _, k in ea[1] + eb[1]:
                    g2 = gcd(g2, k)
                g2 = gcd(g2, 8)
                if g2 > 1 and (ea[0] - eb[0]) % g2 == 0:
                    g, c, base = g2, ea[0] % g2, lneg(sym(adr))
                    na, nb = ea, eb
            v = SY.new('phi', -INF, INF)
            xa = ((na[0] - c) // g, tuple((s, k // g) for s, k in na[1]))
            xb = ((nb[0] - c) // g, tuple((s, k // g) for s, k in nb[1]))
            r = ladd((c, ((v, g),)), base)
            phis[v] = (path, g, c, base)
            na, nb = na0, nb0
            # pick pivot from num, prefer const-free symbol
            piv = None
            for s in num:
                if s != ('c',):
                    piv = s
                    break
            if piv is None:
                piv = ('c',)
            # express basis in reduced form: cell - sum(m/den*(..)) ; store reduced vector with its own combination
            # reduced: den*cell - sum m*(expr) has delta num
            re = lmul(r, den)
            rxa = lmul(na, den)
            for m, (expr, xa2) in comb:
                re = lsub(re, lmul(expr, m))
                rxa = lsub(rxa, lmul(xa2, m))
            basis.append((piv, num, re, rxa, g, c))
            post.append(('phi', v, xa, xb, w, g, c))
            if base[1]:
                post.append(('dep', r, na, nb, w))
            memo[key] = r
            return r

        def joinbits(x, y, path, w):
            out = []
            phi = None
            T = BT.t
            for i, (p, q) in enumerate(zip(x, y)):
                if p == q:
                    out.append(p)
                    continue
                if p >= 2 and q >= 2:
                    tp, tq = T[p], T[q]
                    if tp[0] == 'm' and tq[0] == 'm' and tp[1] == tq[1] and tp[3] == tq[3]:
                        e = joinlin(tp[2], tq[2], path + ('b', i), 64)
                        out.append(BT.get(('m', tp[1], e, tp[3])))
                        continue
                if phi is None:
                    phi = SY.new('phib', 0, (1 << w) - 1)
                    phis[phi] = (path, 0, 0, ZERO)
                out.append(BT.get(('l', sym(phi), i)))
            return tuple(out)

        def joinval(path, a, b):
            if isinstance(a, IV) and isinstance(b, IV):
                if a.w != b.w:
                    return ctx.fresh_iv(max(a.w, b.w))
                if a.cond is not None or b.cond is not None:
                    ca, cb = ctx.kconst(A, a), ctx.kconst(B, b)
                    if ca is not None and ca == cb:
                        return konst(a.w, ca)
                    if a.cond == b.cond and a.cond is not None:
                        return a
                    v = SY.new('phic', 0, 1)
                    phis[v] = (path, 0, 0, ZERO)
                    return IV(a.w, sym(v))
                if a.lin is None and b.lin is None:
                    if a.bits == b.bits:
                        return a
                    return IV(a.w, None, joinbits(a.bits, b.bits, path, a.w))
                la = a.lin if a.lin is not None else ctx.linof(A, a.bits)
                lb = b.lin if b.lin is not None else ctx.linof(B, b.bits)
                bb = None
                if a.bits is not None and b.bits is not None:
                    bb = a.bits if a.bits == b.bits else joinbits(a.bits, b.bits, path, a.w)
                elif ctx.bitmode and (a.bits is not None or b.bits is not None):
                    try:
                        bb = joinbits(ctx.bits(A, a), ctx.bits(B, b), path, a.w)
                    except (Split, SplitCond):
                        bb = None
                return IV(a.w, joinlin(la, lb, path, a.w), bb)
            if isinstance(a, PV) and isinstance(b, PV):
                if a.obj == b.obj:
                    if a.off == b.off:
                        return a
                    return PV(a.obj, joinlin(a.off, b.off, path, 64, SY.memo.get(('addr', a.obj)) if a.obj in ('in', 'out') else None), a.tag if a.tag == b.tag else None)
                return PV('unk')
            if isinstance(a, AG) and isinstance(b, AG) and len(a.f) == len(b.f):
                return AG([joinval(path + (i,), x, y) for i, (x, y) in enumerate(zip(a.f, b.f))])
            if isinstance(a, IV):
                return ctx.fresh_iv(a.w)
            return TOP

        # order: pointers and ghosts first so that they become the basis
        diffs.sort(key=lambda d: (0 if isinstance(d[1], PV) else 1 if d[0][0] == 'm' else 2))
        newf = {}
        for path, va, vb in diffs:
            v = joinval(path, va, vb)
            if path[0] == 'f':
                i = path[1]
                if i not in newf:
                    newf[i] = J.frames[i] = dict(J.frames[i])
                J.frames[i][path[2]] = v
            else:
                o = J.mem[path[1]]
                o.cells[path[2]] = (o.cells[path[2]][0], v)
        # bounds for phis
        inv_a, inv_b = [], []
        for p in post:
            if p[0] == 'phi':
                _, v, xa, xb, w, g, c = p
                la, lb = A.lower(xa), B.lower(xb)
                ha, hb = A.upper(xa), B.upper(xb)
                lo, hi = min(la, lb), max(ha, hb)
                if widen and visits >= 2:
                    if lb < la:
                        lo = next((k for k in LOTHR if lb >= k), -INF)
                    if hb > ha:
                        hi = self.threshold(hb, g, c, w, visits)
                if lo > -INF or hi < INF:
                    J.iv[v] = (lo, hi)
                self.inv(inv_a, xa, v)
                self.inv(inv_b, xb, v)
        mapA = {p[1]: p[2] for p in post if p[0] == 'phi'}
        mapB = {p[1]: p[3] for p in post if p[0] == 'phi'}
        for p in post:
            if p[0] == 'eq':
                mapA[p[2]] = p[3]
                mapB[p[2]] = p[4]
        try:
            for p in post:
                if p[0] == 'eq':
                    J.add_eq(p[1])
                elif p[0] == 'dep':
                    _, r, na, nb, w = p
                    if not r[1]:
                        continue
                    la, lb = A.lower(na), B.lower(nb)
                    ha, hb = A.upper(na), B.upper(nb)
                    lo, hi = min(la, lb), max(ha, hb)
                    if widen and visits >= 2:
                        if lb < la:
                            lo = next((k for k in LOTHR if lb >= k), -INF)
                        if hb > ha:
                            hi = INF
                    if lo > -INF and J.ilo(r) < lo:
                        J.add_ge(laddc(r, -lo))
                    if hi < INF and J.ihi(r) > hi:
                        J.add_ge(lsub(lc(hi), r))
        except Infeasible:
            raise AssertionError("join produced bottom")
        # common constraints
        cons = set(A.cons & B.cons)
        J.cons = frozenset(cons | set(J.cons))
        cands = []
        for X, inv, other in ((A, inv_a, 'B'), (B, inv_b, 'A')):
            late = widen and visits >= 2 and X is B     # widening: prefer facts the older state already had
            if late and visits >= 6:
                continue
            for g in self.project(X, inv, phis):
                if not late or len(g[1]) > 1:
                    cands.append((g, other))
        for s, q in eqd:
            if widen and visits >= 2 and A.eq.get(s) != q:
                continue
            d = lsub(sym(s), q)
            cands.append((d, None))
            cands.append((lneg(d), None))
        for g in A.cons ^ B.cons:
            if not widen or visits < 6 or g in A.cons:
                cands.append((g, None))
        # weaker sibling constraints (same variable part)
        ca = {g[1]: g[0] for g in A.cons}
        for g in B.cons:
            if g[1] in ca and (not widen or visits < 4 or g[0] <= ca[g[1]]):
                cands.append(((max(g[0], ca[g[1]]), g[1]), None))
        for path, va, vb in diffs:
            v = J.frames[path[1]].get(path[2]) if path[0] == 'f' else J.mem[path[1]].cells[path[2]][1]
            if isinstance(v, PV):
                o = J.mem.get(v.obj)
                if o is not None and o.size is not None and o.size[1] and v.off[1]:
                    cands.append((lsub(o.size, v.off), None))
            elif path[0] == 'm' and path[1] == 'G' and path[2] == 0 and 'out' in J.mem:
                cands.append((lsub(J.mem['out'].size, v.lin), None))
        if widen and blk is not None:
            cands += self.guard_cands(J, blk)
        seen = set()
        for g, other in cands:
            g = J.norm(g)
            if g in seen or not g[1]:
                continue
            seen.add(g)
            if abs(g[0]) >= (1 << 46) and len(g[1]) > 1:
                continue
            if DBG: print("cand", show(g), J.prove(g,2), B.prove(self.subst(g, mapB)), A.prove(self.subst(g, mapA)), show(self.subst(g, mapA)), show(self.subst(g,mapB)))
            if J.prove(g, 2):
                continue
            if other != 'A' or True:
                if not B.prove(self.subst(g, mapB)):
                    continue
            if not A.prove(self.subst(g, mapA)):
                continue
            try:
                J.add_ge(g)
            except Infeasible:
                raise AssertionError("join constraint bottom")
        # disequalities
        nd = []
        for x in A.dis:
            if x in B.dis or B.is_zero(x) is False:
                nd.append(x)
        for x in B.dis:
            if x not in nd and A.is_zero(x) is False:
                nd.append(x)
        J.dis = tuple(nd)
        if len(J.cons) > 12 or widen:
            self.gc(J)
        return J, phis

    def threshold(self, hb, g, c, w, visits):
        if w in (1, 8, 16, 32):
            t = ((1 << w) - 1 - c) // g
            if visits < 8:
                for k in (1, 7, 8, 15, 31, 63, 64, 127, 255, 511, 512, 1023, 1024, 2047, 2048, 65535):
                    if hb <= k <= t:
                        return k
            return t
        if visits < 4:
            for k in (8, 64, 512, 2048, 65536):
                if hb <= k:
                    return k
        return MAXB if hb <= MAXB else INF

    def inv(self, lst, x, v):
        lst.append((x, v))

    def subst(self, g, m):
        r = (g[0], ())
        for s, k in g[1]:
            x = m.get(s)
            r = ladd(r, lmul(x, k) if x is not None else (0, ((s, k),)))
        return r

    def project(self, X, inv, phis):
        """X.cons rewritten over the phi symbols"""
        out = []
        imap = {}       # old symbol -> (numerator over phis, positive denominator)
        own = set(v for _, v in inv)

        def rsub(g, m):
            """g with the symbols of m replaced; scaled by a positive factor. returns (g', scale)"""
            sc = 1
            for s, k in g[1]:
                q = m.get(s)
                if q is not None:
                    sc = sc * q[1] // gcd(sc, q[1])
            r = (g[0] * sc, ())
            for s, k in g[1]:
                q = m.get(s)
                r = ladd(r, lmul(q[0], k * sc // q[1]) if q is not None else (0, ((s, k * sc),)))
            return r, sc
        for x, v in sorted(inv, key=lambda t: len(t[0][1])):
            # v = x ; eliminate one old symbol of x
            y, sc = rsub(x, imap)
            best = None
            for s, k in y[1]:
                if s not in SY.param and s not in own:
                    if best is None or (abs(k) == 1, s) > (abs(best[1]) == 1, best[0]):
                        best = (s, k)
            if best is None:
                continue
            s, k = best
            rest = (y[0], tuple(t for t in y[1] if t[0] != s))
            e = lsub(lmul(sym(v), sc), rest)        # k*s = e
            if k < 0:
                e, k = lneg(e), -k
            one = {s: (e, k)}
            for q in list(imap):
                n, sc2 = rsub(imap[q][0], one)
                imap[q] = (n, imap[q][1] * sc2)
            imap[s] = (e, k)
        if not imap:
            return out
        extra = []
        for s in imap:
            r = X.rng(s)
            if s in X.eq:
                continue
            if r[0] > -INF:
                extra.append((-r[0], ((s, 1),)))
            if r[1] < INF:
                extra.append((r[1], ((s, -1),)))
        for g in list(X.cons) + extra:
            if any(s in imap for s, _ in g[1]):
                n = rsub(g, imap)[0]
                d = 0
                for _, k in n[1]:
                    d = gcd(d, k)
                if d > 1:
                    n = (n[0] // d, tuple((t, k // d) for t, k in n[1]))
                out.append(n)
        return out

    def guard_cands(self, J, blk):
        info = self.head_info(blk)
        out = []
        fr = J.frames[-1]
        for i in info['cand']:
            vals = []
            for o in i.ops:
                try:
                    v = self.opv(J, o)
                except KeyError:
                    v = None
                vals.append(v)
            a, b = vals
            if isinstance(a, PV) and isinstance(b, PV) and a.obj == b.obj and a.obj != 'unk':
                d = lsub(b.off, a.off)
            elif isinstance(a, IV) and isinstance(b, IV) and a.lin is not None and b.lin is not None:
                d = lsub(b.lin, a.lin)
            else:
                continue
            for k in (0, -1, 1):
                out.append((laddc(d, k), None))
                out.append((laddc(lneg(d), k), None))
        return out

    def reach(self, st):
        r = set(SY.param)
        for oid in st.mem:
            a = SY.memo.get(('addr', oid))
            if a is not None:
                r.add(a)

        def addv(v):
            if isinstance(v, IV):
                if v.lin is not None:
                    for s, _ in v.lin[1]:
                        r.add(s)
                if v.bits is not None:
                    for b in v.bits:
                        if b >= 2:
                            t = BT.t[b]
                            if t[0] == 'l':
                                for s, _ in t[1][1]:
                                    r.add(s)
                            elif t[0] == 'm':
                                for s, _ in t[2][1]:
                                    r.add(s)
                    bitsyms(v.bits, r)
                if v.cond is not None:
                    self.cond_syms(v.cond, r)
            elif isinstance(v, PV):
                for s, _ in v.off[1]:
                    r.add(s)
            elif isinstance(v, AG):
                for x in v.f:
                    addv(x)
        for f in st.frames:
            for v in f.values():
                addv(v)
        for o in st.mem.values():
            for sz, v in o.cells.values():
                addv(v)
            if o.size is not None:
                for s, _ in o.size[1]:
                    r.add(s)
        ch = True
        while ch:
            ch = False
            for s, q in st.eq.items():
                if s in r:
                    for t, _ in q[1]:
                        if t not in r:
                            r.add(t)
                            ch = True
        return r

    def cond_syms(self, c, r):
        if c[0] in ('ge', 'eq'):
            for s, _ in c[1][1]:
                r.add(s)
        elif c[0] in ('and', 'or', 'not', 'xor'):
            for x in c[1:]:
                self.cond_syms(x, r)

    def gc(self, st):
        """eliminate symbols no live cell mentions (Fourier-Motzkin, bounded, otherwise drop)"""
        live = self.reach(st)
        st.eq = {s: q for s, q in st.eq.items() if s in live}
        dead = set()
        for g in st.cons:
            for s, _ in g[1]:
                if s not in live:
                    dead.add(s)
        cons = set(st.cons)
        for s in sorted(dead):
            pos = [g for g in cons if any(x == s and k > 0 for x, k in g[1])]
            neg = [g for g in cons if any(x == s and k < 0 for x, k in g[1])]
            cons -= set(pos)
            cons -= set(neg)
            r = st.rng(s)
            if r[0] > -INF:
                pos.append((-r[0], ((s, 1),)))
            if r[1] < INF:
                neg.append((r[1], ((s, -1),)))
            if len(pos) * len(neg) <= 30:
                for p in pos:
                    kp = dict(p[1])[s]
                    for n in neg:
                        kn = -dict(n[1])[s]
                        d = gcd(kp, kn)
                        e = ladd(lmul(p, kn // d), lmul(n, kp // d))
                        if len(e[1]) >= 2:
                            g = 0
                            for _, k in e[1]:
                                g = gcd(g, k)
                            e = (e[0] // g, tuple((x, k // g) for x, k in e[1]))
                            if st.ilo(e) < 0:
                                cons.add(e)
            if len(cons) > 60:
                cons = set(sorted(cons, key=lambda g: len(g[1]))[:60])
        st.cons = frozenset(cons)
        st.dis = tuple(x for x in st.dis if all(s in live for s, _ in x[1]))
        st.iv = {s: r for s, r in st.iv.items() if s in live}

    # ---------------------------------------------------------- inclusion
    def getpath(self, st, path):
        if path[0] == 'f':
            v = st.frames[path[1]].get(path[2])
        else:
            o = st.mem.get(path[1])
            if o is None:
                return None
            c = o.cells.get(path[2])
            v = c[1] if c is not None else None
        for x in path[3:]:
            if x == 'b':
                if isinstance(v, IV) and v.bits is not None:
                    t = BT.t[v.bits[path[-1]]]
                    if t[0] == 'm':
                        return t[2]
                return None
            if isinstance(v, AG):
                v = v.f[x]
        return v

    def included(self, N, H, phis, blk):
        sub = {}
        for v, (path, g, c, base) in phis.items():
            if g == 0:
                continue
            x = self.getpath(N, path)
            if x is None:
                return False
            if isinstance(x, IV):
                e = x.lin if x.lin is not None else self.linof(N, x.bits) if x.bits is not None else None
                if e is None:
                    try:
                        e = self.U(N, x, False)
                    except SplitCond:
                        return False
            elif isinstance(x, PV):
                e = x.off
            elif isinstance(x, tuple):
                e = x
            else:
                return False
            e = N.norm(e)
            e = laddc(e if base is ZERO else N.norm(lsub(e, base)), -c)
            if e[0] % g or any(k % g for _, k in e[1]):
                return False
            sub[v] = (e[0] // g, tuple((s, k // g) for s, k in e[1]))

        def same(a, b):
            """H value a (under sub) covers N value b"""
            if a is b and not sub:
                return True
            if isinstance(a, IV) and isinstance(b, IV):
                if a.cond is not None:
                    ca = self.kconst(H, a)
                    return ca is not None and ca == self.kconst(N, b)
                if a.lin is not None:
                    e = self.subst(H.norm(a.lin), sub)
                    if len(a.lin[1]) == 1 and phis.get(a.lin[1][0][0], (0, 1))[1] == 0:
                        pass
                    else:
                        try:
                            y = b.lin if b.lin is not None else self.linof(N, b.bits) if b.bits is not None else self.U(N, b)
                        except (Split, SplitCond):
                            return False
                        d = N.norm(lsub(e, y))
                        if not (not d[1] and d[0] % (1 << a.w) == 0):
                            if N.is_zero(d) is not True:
                                return False
                if a.bits is not None:
                    try:
                        yb = self.bits(N, b)
                    except (Split, SplitCond):
                        return False
                    if yb != a.bits:
                        for p, q in zip(a.bits, yb):
                            if p == q:
                                continue
                            if p < 2:
                                return False
                            t = BT.t[p]
                            if t[0] == 'l' and len(t[1][1]) == 1 and phis.get(t[1][1][0][0], (0, 1))[1] == 0:
                                continue
                            if t[0] == 'm' and q >= 2:
                                u = BT.t[q]
                                if u[0] == 'm' and u[1] == t[1] and u[3] == t[3]:
                                    d = N.norm(lsub(self.subst(t[2], sub), u[2]))
                                    if d == ZERO:
                                        continue
                            return False
                return True
            if isinstance(a, PV) and isinstance(b, PV):
                if a.obj == 'unk' and a.obj == b.obj:
                    return True
                if a.obj == 'unk':
                    return True
                if a.obj != b.obj:
                    return False
                d = N.norm(lsub(self.subst(H.norm(a.off), sub), b.off))
                return d == ZERO or N.is_zero(d) is True
            if isinstance(a, AG) and isinstance(b, AG):
                return all(same(x, y) for x, y in zip(a.f, b.f))
            return a is TOP
        for i, fh in enumerate(H.frames):
            fn = N.frames[i]
            if fh is fn:
                continue
            for k, a in fh.items():
                b = fn.get(k)
                if b is None:
                    return False
                if not same(a, b):
                    return False
        for oid, oh in H.mem.items():
            on = N.mem.get(oid)
            if on is None:
                return False
            if on is oh:
                continue
            if on.state != oh.state:
                return False
            for off, (sz, a) in oh.cells.items():
                c = on.cells.get(off)
                if c is None:
                    # a fill may provide the value
                    v = self.cread(N, on, off, INTTY.get(8 * sz, INTTY[64]), sz) if isinstance(a, IV) else None
                    if v is None:
                        return False
                    c = (sz, v)
                if c[0] != sz or not same(a, c[1]):
                    return False
            if oh.fills != on.fills or on.cells.keys() - oh.cells.keys():
                for f in oh.fills:
                    if f[3] == ('zero',):
                        if f not in on.fills or any(q < f[1] and q + c[0] > f[0] and q not in oh.cells
                                                    for q, c in on.cells.items()):
                            return False
                        continue
                    r = self.region_summary(N, on, f[0], f[1], 8 * f[2])
                    if r is None:
                        anyc = any(q < f[1] and q + c[0] > f[0] for q, c in on.cells.items()) or \
                            any(q[0] < f[1] and q[1] > f[0] for q in on.fills)
                        if anyc:
                            return False
                        continue
                    if self.hull([r, f[3]], 8 * f[2]) != f[3]:
                        return False
            if oh.sym is not None and oh.sym:
                if on.sym != oh.sym:
                    return False
        for g in H.cons:
            if not N.prove(self.subst(g, sub)):
                return False
        for s, r in H.iv.items():
            e = sub.get(s)
            if s in phis and phis[s][1] == 0:
                continue
            if e is None:
                e = sym(s)
            elif r[0] == 0 and r[1] in FULL and (r[1] not in (MAXB,)) and \
                    not any(s == t for g in H.cons for t, _ in g[1]) and \
                    not any(s == t for q in H.eq.values() for t, _ in q[1]) and \
                    not any(s == t for q in H.dis for t, _ in q[1]):
                pth = phis[s][0]
                hv = self.getpath(H, pth)
                if isinstance(hv, IV) and (1 << hv.w) - 1 == r[1]:
                    continue        # the whole range of its type: holds modulo 2^w
            if r[0] > -INF and not N.prove(laddc(e, -r[0])):
                return False
            if r[1] < INF and not N.prove(lsub(lc(r[1]), e)):
                return False
        for s, q in H.eq.items():
            d = N.norm(lsub(self.subst(sym(s), sub), self.subst(q, sub)))
            if d != ZERO:
                return False
        for x in H.dis:
            if N.is_zero(self.subst(x, sub)) is not False:
                return False
        return True

    # ---------------------------------------------------------- block execution
    def run_block(self, blk, st, pending, out):
        work = [(st, blk.nphi)]
        insts = blk.insts
        while work:
            st, i = work.pop()
            try:
                while True:
                    self.steps += 1
                    if self.steps > self.budget:
                        raise Budget()
                    if self.restart_at is not None and self.steps > self.restart_at:
                        raise Restart()
                    ins = insts[i]
                    op = ins.op
                    if op in ('call', 'invoke'):
                        res = self.do_call(st, ins)
                        if res is not None:
                            for kind, s, v in res:
                                self.after_call(ins, kind, s, v, work, i, blk, pending, out)
                            break
                        if op == 'invoke':
                            self.edge(st, blk, ins.x["normal"], pending)
                            break
                        i += 1
                        continue
                    if op == 'br':
                        if not ins.ops:
                            self.edge(st, blk, ins.succ[0], pending)
                            break
                        v = self.opv(st, ins.ops[0])
                        c = self.as_cond(st, v)
                        r = self.ceval(st, c)
                        if r is not None:
                            self.edge(st, blk, ins.succ[0 if r else 1], pending)
                            break
                        for s in self.assume(st.copy(), c, True):
                            self.edge(s, blk, ins.succ[0], pending)
                        for s in self.assume(st, c, False):
                            self.edge(s, blk, ins.succ[1], pending)
                        break
                    if op == 'switch':
                        self.do_switch(st, ins, blk, pending)
                        break
                    if op == 'ret':
                        v = self.opv(st, ins.ops[0]) if ins.ops else None
                        if isinstance(v, IV) and v.cond is not None and self.ceval(st, v.cond) is None:
                            raise SplitCond(v.cond)
                        out.append(('ret', st, v))
                        break
                    if op == 'unreachable':
                        break
                    if op == 'resume':
                        out.append(('throw', st, ('exc',) + tuple(st.tags)))
                        break
                    self.do_inst(st, ins)
                    i += 1
            except Split as s:
                a = st.copy()
                try:
                    a.add_ge(s.e)
                    work.append((a, i))
                except Infeasible:
                    pass
                try:
                    st.add_ge(laddc(lneg(s.e), -1))
                    work.append((st, i))
                except Infeasible:
                    pass
            except SplitCond as s:
                for x in self.assume(st.copy(), s.cond, True):
                    work.append((x, i))
                for x in self.assume(st, s.cond, False):
                    work.append((x, i))
            except Infeasible:
                pass

    def after_call(self, ins, kind, s, v, work, i, blk, pending, out):
        if kind == 'ret':
            if v is not None:
                s.frames[-1][ins.id] = v
            if ins.op == 'invoke':
                self.edge(s, blk, ins.x["normal"], pending)
            else:
                work.append((s, i + 1))
        elif kind == 'throw':
            if ins.op == 'invoke':
                s.tags = tuple(t for t in s.tags if t[0] != 'exc') + (('exc', v),)
                self.edge(s, blk, ins.x["unwind"], pending)
            else:
                out.append(('throw', s, v))

    def do_switch(self, st, ins, blk, pending):
        v = self.opv(st, ins.ops[0])
        cases, default = ins.x
        c = self.const(st, v)
        if c is not None:
            for k, b in cases:
                if k == c:
                    self.edge(st, blk, b, pending)
                    return
            self.edge(st, blk, default, pending)
            return
        e = self.U(st, v)
        for k, b in cases:
            if st.is_zero(laddc(e, -k)) is False:
                continue
            s = st.copy()
            try:
                d = laddc(e, -k)
                self.log_eq(s, d)
                s.add_eq(d)
                self.edge(s, blk, b, pending)
            except Infeasible:
                pass
        try:
            for k, b in cases:
                st.add_ne(laddc(e, -k))
        except Infeasible:
            return
        lo, hi = st.lower(e), st.upper(e)
        ks = set(k for k, _ in cases)
        if hi - lo < 64:
            for k in range(int(lo), int(hi) + 1):
                if k in ks:
                    continue
                s = st.copy()
                try:
                    d = laddc(e, -k)
                    self.log_eq(s, d)
                    s.add_eq(d)
                    self.edge(s, blk, default, pending)
                except Infeasible:
                    pass
            return
        self.edge(st, blk, default, pending)

    def edge(self, st, src, dst, pending):
        if dst.nphi:
            fr = st.frames[-1]
            new = {}
            for p in dst.insts[:dst.nphi]:
                for o, b in zip(p.ops, p.x):
                    if b is src:
                        v = self.opv(st, o)
                        if isinstance(v, IV) and v.cond is not None:
                            r = self.ceval(st, v.cond)
                            if r is None:
                                for val in (True, False):
                                    for s in self.assume(st.copy(), v.cond, val):
                                        self.edge(s, src, dst, pending)
                                return
                            v = konst(v.w, int(r))
                        new[p.id] = v
                        break
            fr.update(new)
        pending.setdefault(dst.id, []).append(st)

    def do_inst(self, st, ins):
        op = ins.op
        fr = st.frames[-1]
        if op in BINOPS:
            a, b = self.opv(st, ins.ops[0]), self.opv(st, ins.ops[1])
            if ins.ty.k != 'int':
                fr[ins.id] = TOP
                return
            fr[ins.id] = self.binop(st, op, a, b, ins.ty.w, ins)
        elif op == 'icmp':
            c = self.cmp_cond(st, ins.x, self.opv(st, ins.ops[0]), self.opv(st, ins.ops[1]))
            fr[ins.id] = IV(1, None, None, c)
        elif op == 'load':
            fr[ins.id] = self.load(st, self.opv(st, ins.ops[0]), ins.ty, ins)
            self.check_align(st, self.opv(st, ins.ops[0]), ins)
        elif op == 'store':
            p = self.opv(st, ins.ops[1])
            v = self.opv(st, ins.ops[0])
            if isinstance(v, IV) and v.cond is not None:
                v = IV(v.w, self.U(st, v))
            self.check_align(st, p, ins)
            self.store(st, p, v, ins.ops[0].ty, ins)
        elif op == 'getelementptr':
            base = self.opv(st, ins.ops[0])
            fr[ins.id] = self.gep(st, base, ins.x, [self.opv(st, o) for o in ins.ops[1:]])
        elif op in CASTS:
            fr[ins.id] = self.cast(st, op, self.opv(st, ins.ops[0]), ins.ops[0].ty, ins.ty, ins)
        elif op == 'select':
            c = self.as_cond(st, self.opv(st, ins.ops[0]))
            r = self.ceval(st, c)
            if r is None:
                a, b = self.opv(st, ins.ops[1]), self.opv(st, ins.ops[2])
                if ins.ty.k == 'int' and ins.ty.w == 1:
                    ca, cb = self.as_cond(st, a), self.as_cond(st, b)
                    # c?a:b
                    if cb == CFALSE:
                        fr[ins.id] = IV(1, None, None, ('and', c, ca))
                        return
                    if ca == CTRUE:
                        fr[ins.id] = IV(1, None, None, ('or', c, cb))
                        return
                raise SplitCond(c)
            fr[ins.id] = self.opv(st, ins.ops[1 if r else 2])
        elif op == 'alloca':
            oid = ('al', ins.name or str(ins.id), ins.fn.name, len(st.frames))
            n = self.opv(st, ins.ops[0])
            cnt = self.const(st, n) if isinstance(n, IV) else None
            size = lc(ins.x.size * cnt) if cnt is not None else None
            o = MObj(size, 'local:%s' % (ins.name or ins.id), len(st.frames))
            st.mem[oid] = o
            fr[ins.id] = PV(oid)
        elif op == 'extractvalue':
            v = self.opv(st, ins.ops[0])
            for x in ins.x:
                v = v.f[x] if isinstance(v, AG) and x < len(v.f) else TOP
            if v is TOP or v is None:
                v = self.fresh_ty(ins.ty)
            fr[ins.id] = v
        elif op == 'insertvalue':
            v = self.opv(st, ins.ops[0])
            x = self.opv(st, ins.ops[1])
            if not isinstance(v, AG):
                v = self.fresh_ty(ins.ty)
            if isinstance(v, AG) and len(ins.x) == 1:
                f = list(v.f)
                f[ins.x[0]] = x
                fr[ins.id] = AG(f)
            else:
                fr[ins.id] = TOP
        elif op == 'freeze':
            fr[ins.id] = self.opv(st, ins.ops[0])
        elif op == 'landingpad':
            self.do_landingpad(st, ins)
        elif op in ('fence',):
            pass
        elif op in ('cmpxchg', 'atomicrmw'):
            fr[ins.id] = self.fresh_ty(ins.ty)
        elif op == 'fcmp':
            fr[ins.id] = IV(1, None, None, self.unk_cond())
        elif op in ('fptoui', 'fptosi'):
            fr[ins.id] = self.fresh_ty(ins.ty)
        else:
            fr[ins.id] = self.fresh_ty(ins.ty) if ins.ty.k != 'void' else TOP

    def check_align(self, st, p, ins):
        a = ins.x["align"]
        if a <= 1 or not isinstance(p, PV):
            return
        o = st.mem.get(p.obj)
        if o is None or o.kind not in ('in', 'out'):
            return
        e = st.norm(ladd(sym(self.addr_sym(p.obj)), p.off))
        ok = e[0] % a == 0 and all(k % a == 0 for _, k in e[1])
        if not ok:
            q, r = st.copy().divmod2(e, a)
            ok = not r[1] and r[0] == 0
        self.ob('align', o.kind, ins, ok, lambda: "access assumes %d-byte alignment of %s + %s" % (a, o.kind, show(p.off)))

    def do_landingpad(self, st, ins):
        exc = None
        for t in st.tags:
            if t[0] == 'exc':
                exc = t[1]
        sel = 0
        ty = None
        if exc is not None and isinstance(exc, tuple):
            for x in exc:
                if isinstance(x, str) and x.startswith('_ZTI'):
                    ty = x
        matched = None
        for c in ins.x["clauses"]:
            if c.k == 'null' or c.k == 'zero':
                matched = 'any'
                break
            if c.k == 'gvar':
                if ty is None:
                    matched = '?'
                    break
                if c.v == ty:
                    matched = c.v
                    break
        if matched is not None and matched not in ('any', '?'):
            selv = self.fresh_const_id(matched)
            st.frames[-1][ins.id] = AG([PV('unk'), konst(32, selv)])
        else:
            st.frames[-1][ins.id] = AG([PV('unk'), self.fresh_iv(32) if matched == '?' else konst(32, 0 if matched is None else 9999)])

    def fresh_const_id(self, name):
        return 100 + (sum(ord(c) * (i + 7) for i, c in enumerate(name)) % 5000)

    # ---------------------------------------------------------- calls
    def in_loop(self, ins, st):
        """is this call site (or any caller's) inside a loop?"""
        fn = ins.fn
        if any(ins.bb.id in body for body in fn.loops.values()):
            return True
        return any(self.loopstack)

    loopstack = ()
    collect = False
    NS = 48

    def do_call(self, st, ins):
        """None: handled inline, continue after it; else list of (kind, state, value)"""
        callee = ins.x["callee"]
        fr = st.frames[-1]
        if callee.k == 'asm':
            self.do_asm(st, ins, callee.v)
            return None
        if callee.k != 'func':
            v = self.opv(st, callee) if callee.k in ('inst', 'arg', 'cexpr') else None
            if isinstance(v, PV) and isinstance(v.obj, tuple) and v.obj[0] == 'fn':
                name = v.obj[1]
            else:
                name = None
        else:
            name = callee.v
        if name is not None and name.startswith('llvm.'):
            return self.do_intrinsic(st, ins, name)
        if name in self.models:
            return self.models[name](self, st, ins)
        f = self.funcs.get(name)
        if f is not None and not f.decl:
            args = []
            for o in ins.ops:
                v = self.opv(st, o)
                if isinstance(v, IV) and v.cond is not None:
                    v = IV(v.w, self.U(st, v))
                args.append(v)
            self.callstack.append("%s:%d" % (ins.fn.name, ins.line))
            old = self.loopstack
            self.loopstack = old + (any(ins.bb.id in body for body in ins.fn.loops.values()),)
            try:
                # only values live after the call matter to the caller
                return self.run_function(f, args, st)
            finally:
                self.callstack.pop()
                self.loopstack = old
        return self.ext_call(st, ins, name)

    def ext_call(self, st, ins, name):
        fr = st.frames[-1]
        args = [self.opv(st, o) for o in ins.ops]
        if name == 'malloc' or name == 'calloc':
            return self.do_malloc(st, ins, name, args)
        if name == 'free':
            p = args[0]
            if isinstance(p, PV) and p.obj in st.mem and p.obj != 'unk':
                o = st.mem[p.obj]
                self.ob('free', o.kind, ins, o.state == 'live' and o.kind.startswith('heap') and p.off == ZERO,
                        "free of %s (%s)" % (o.kind, o.state))
                o = self.setobj(st, p.obj)
                o.state = 'freed'
            return None
        if name in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], args[2], ins)
            fr[ins.id] = args[0]
            return None
        if name == 'memset':
            self.memset(st, args[0], args[1], args[2], ins)
            fr[ins.id] = args[0]
            return None
        if name in ('memcmp', 'strcmp', 'strlen'):
            if name == 'memcmp':
                for k in (0, 1):
                    if isinstance(args[k], PV):
                        nl = self.U(st, args[2])
                        o = self.deref(st, args[k], nl, ins, 'read')
                n = args[2]
                c = self.const(st, n)
                if c in (1, 2, 4, 8) and all(isinstance(a, PV) and a.obj not in ('unk', 'null') for a in args[:2]):
                    x = self.load(st, args[0], INTTY[8 * c], ins)
                    y = self.load(st, args[1], INTTY[8 * c], ins)
                    if isinstance(x, IV) and isinstance(y, IV):
                        cond = self.cmp_cond(st, 'eq', x, y)
                        r = self.ceval(st, cond)
                        if r is None:
                            raise SplitCond(cond)
                        if r:
                            fr[ins.id] = konst(32, 0)
                        else:
                            # nonzero, sign unknown
                            s = self.freshsym('memcmp', 1, (1 << 32) - 1)
                            fr[ins.id] = IV(32, sym(s))
                        return None
            fr[ins.id] = self.fresh_ty(ins.ty)
            return None
        if name == '__cxa_allocate_exception':
            fr[ins.id] = PV('unk')
            return None
        if name == '__cxa_throw':
            t = ins.ops[1]
            return [('throw', st, ('exc', t.v if t.k == 'gvar' else '?'))]
        if name in ('__cxa_begin_catch', '__cxa_get_exception_ptr'):
            st.tags = tuple(t for t in st.tags if t[0] != 'exc')
            fr[ins.id] = PV('unk')
            return None
        if name in ('__cxa_end_catch', '__cxa_free_exception'):
            return None
        if name in TERMINATING or ins.x["noreturn"]:
            if name == '__assert_fail':
                self.ob('assert', '', ins, False, "assertion may fail")
            return []
        f = self.funcs.get(name)
        if f is not None and f.noreturn:
            return []
        self.ext_calls.setdefault(name or '<indirect>', set()).add((ins.fn.name, ins.file, ins.line))
        for a in args:
            if isinstance(a, PV) and a.obj in st.mem and name not in HARMLESS:
                o = st.mem[a.obj]
                if o.kind == 'in':
                    continue
                if o.kind == 'out':
                    self.ob('out-escape', 'out', ins, False, "output buffer passed to unmodelled %s" % name)
                    continue
                o = self.setobj(st, a.obj)
                o.cells = {}
                o.fills = ()
        if ins.ty.k != 'void':
            fr[ins.id] = self.fresh_ty(ins.ty, name or 'ext')
        return None

    def do_malloc(self, st, ins, name, args):
        if name == 'calloc':
            n = self.binop(st, 'mul', args[0], args[1], 64, ins)
        else:
            n = args[0]
        size = self.U(st, n)
        fr = st.frames[-1]
        nul = st.copy()
        nul.frames[-1][ins.id] = NULLP
        if self.in_loop(ins, st):
            fr[ins.id] = PV('unk')
        else:
            oid = ('heap', ins.fn.name, ins.id, len(st.frames))
            o = MObj(size, 'heap:%s:%d' % (ins.fn.name, ins.line), 0)
            if name == 'calloc' and not size[1]:
                o.fills = ((0, size[0], 0, ('zero',)),)
            st.mem[oid] = o
            fr[ins.id] = PV(oid)
        return [('ret', st, fr[ins.id]), ('ret', nul, NULLP)] if self.oom else [('ret', st, fr[ins.id])]

    oom = True

    def do_asm(self, st, ins, s):
        fr = st.frames[-1]
        t = s.replace(' ', '')
        if ins.ty.k == 'int' and len(ins.ops) == 1:
            v = self.opv(st, ins.ops[0])
            if t.startswith('bswap$0') or (t.startswith('xchgb${0:b},${0:h}') and ins.ty.w == 16) or \
                    (t.startswith('xchgb${0:h},${0:b}') and ins.ty.w == 16) or \
                    (ins.ty.w == 16 and t in ('rorw$$8,$0', 'rolw$$8,$0', 'rorw$$8,${0:w}', 'rolw$$8,${0:w}')):
                fr[ins.id] = self.bswap(st, v, ins.ty.w)
                return
        if ins.ty.k != 'void':
            fr[ins.id] = self.fresh_ty(ins.ty)

    def bswap(self, st, v, w):
        if not isinstance(v, IV):
            return self.fresh_iv(w)
        c = self.const(st, v)
        if c is not None:
            return konst(w, int.from_bytes(c.to_bytes(w // 8, 'little'), 'big'))
        if v.bits is None and not self.bitmode:
            return self.fresh_iv(w)
        b = self.bits(st, v)
        out = []
        for j in range(w // 8 - 1, -1, -1):
            out.extend(b[8 * j:8 * j + 8])
        return IV(w, None, tuple(out))

    def do_intrinsic(self, st, ins, name):
        fr = st.frames[-1]
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.assume') \
                or name.startswith('llvm.va_') or name.startswith('llvm.stack') or name.startswith('llvm.experimental.noalias'):
            if ins.ty.k != 'void':
                fr[ins.id] = self.fresh_ty(ins.ty)
            return None
        a = [self.opv(st, o) for o in ins.ops]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(st, a[0], a[1], a[2], ins)
        elif name.startswith('llvm.memset'):
            self.memset(st, a[0], a[1], a[2], ins)
        elif name.startswith('llvm.bswap'):
            fr[ins.id] = self.bswap(st, a[0], ins.ty.w)
        elif name.startswith('llvm.expect'):
            fr[ins.id] = a[0]
        elif name.startswith('llvm.eh.typeid.for'):
            t = ins.ops[0]
            fr[ins.id] = konst(32, self.fresh_const_id(t.v if isinstance(t.v, str) else '?'))
        elif name.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            pred = {'llvm.umax': 'ugt', 'llvm.umin': 'ult', 'llvm.smax': 'sgt', 'llvm.smin': 'slt'}[name[:9]]
            c = self.cmp_cond(st, pred, a[0], a[1])
            r = self.ceval(st, c)
            if r is None:
                raise SplitCond(c)
            fr[ins.id] = a[0] if r else a[1]
        elif name.startswith(('llvm.fshl', 'llvm.fshr')):
            w = ins.ty.w
            k = self.const(st, a[2])
            if k is None:
                fr[ins.id] = self.fresh_ty(ins.ty)
            else:
                k %= w
                x, y = self.bits(st, a[0]), self.bits(st, a[1])
                cat = y + x
                fr[ins.id] = IV(w, None, cat[w - k:2 * w - k] if name.startswith('llvm.fshl') else cat[k:k + w])
        elif name.startswith('llvm.trap') or name.startswith('llvm.unreachable'):
            return []
        elif '.with.overflow' in name:
            fr[ins.id] = AG([self.fresh_iv(ins.ty.fields[0].w), IV(1, None, None, self.unk_cond())])
            op = {'uadd': 'add', 'usub': 'sub', 'umul': 'mul'}.get(name.split('.')[1])
            if op:
                x, y = self.U(st, a[0]), self.U(st, a[1])
                w = ins.ty.fields[0].w
                e = ladd(x, y) if op == 'add' else lsub(x, y) if op == 'sub' else \
                    (lmul(x, y[0]) if not y[1] else lmul(y, x[0]) if not x[1] else None)
                if e is not None:
                    ov = ('ge', laddc(e, -(1 << w))) if op != 'sub' else ('ge', laddc(lneg(e), -1))
                    r = self.ceval(st, ov)
                    if r is None:
                        raise SplitCond(ov)
                    fr[ins.id] = AG([IV(w, e), IV(1, None, None, ('k', r))])
        else:
            if ins.ty.k != 'void':
                fr[ins.id] = self.fresh_ty(ins.ty, name)
        return None


DBG = 0
FULL = {1, 255, 65535, (1 << 32) - 1, (1 << 64) - 1}
MAXB = 1 << 47
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
