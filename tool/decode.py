"""Driver: the abstract interpreter (engine.py) on the two software decoders and what the
properties P01-P04 and P20 read off its obligations and exit states."""
import multiprocessing, os, signal, sys, time, traceback
import build
from absdom import *
from engine import *

DECODERS = {'sw842_decompress': ('sequential decoder', ['src/serial/842_decompress.c']),
            'optsw842_decompress': ('optimised decoder', ['src/serial_optimized/842_decompress.cpp', 'src/serial/842_decompress.c'])}


def capkey(E, st):
    o = st.mem.get('out')
    g = st.mem.get('G')
    if o is None or g is None:
        return None
    return st.prove(lsub(lsub(o.size, E.hw(st)), lc(8)), 2)


def entry_state():
    st = State()
    il = SY.new('ILEN', 0, 1 << 47, True)
    ol = SY.new('OLEN', 0, 1 << 47, True)
    for nm, sz in (('in', sym(il)), ('out', sym(ol)), ('olen', lc(8))):
        st.mem[nm] = MObj(sz, nm)
    st.mem['olen'].cells[0] = (8, IV(64, sym(ol)))
    g = MObj(lc(8), 'ghost')
    g.cells[0] = (8, IV(64, ZERO))
    st.mem['G'] = g
    return st, il, ol


def rel(p):
    p = str(p)
    return p[len(build.REPO) + 1:] if p.startswith(build.REPO + '/') else p


def analyse(entry, srcs, seconds=700):
    """-> plain dict (picklable)"""
    t = time.time()
    Engine.capkey = staticmethod(capkey)
    sys.setrecursionlimit(100000)
    out = {'entry': entry, 'srcs': srcs, 'status': 'ok'}

    def alarm(*a):
        raise Budget('time limit of %d s' % seconds)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(seconds)
    E = None
    try:
        funcs, gv = build.merged(srcs)
        if entry not in funcs or funcs[entry].decl:
            raise Unsupported('no definition of %s' % entry)
        E = Engine(funcs, gv)
        nr = 0
        while True:
            st, il, ol = entry_state()
            args = [PV('in'), IV(64, sym(il)), PV('out'), PV('olen')]
            E.new_dims = 0
            E.restart_at = 150000 if nr == 0 else None
            E.collect = nr == 0
            E.lost = {}
            E.obs = {}
            E.heads_store = {}
            E.callstack = []
            try:
                res = E.run_function(funcs[entry], args, st)
                if nr == 0:
                    raise Restart()
                break
            except Restart:
                nr += 1
        out['exits'] = exits(E, res, ol)
        out['obs'] = [dict(kind=o.kind, obj=str(o.obj), fn=o.fn, file=rel(o.file), line=o.line, op=str(o.op), ok=o.ok, bad=o.bad,
                           msg=str(o.msg), stack=str(o.stack)) for o in E.obs.values()]
    except (Budget, Unsupported, build.BuildError) as e:
        out['status'] = 'inconclusive: %s: %s' % (type(e).__name__, str(e)[:400])
    except RecursionError as e:
        out['status'] = 'inconclusive: recursion limit'
    except Exception as e:
        out['status'] = 'inconclusive: internal error: ' + traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
    if E is not None:
        out['steps'] = E.steps
        out['fns'] = sorted(str(x) for x in E.visited_fns)
        out['ext'] = sorted(str(x) for x in E.ext_calls)
    out['wall'] = round(time.time() - t, 1)
    return out


def exits(E, res, ol):
    """one record per abstract exit: (result class, *olen, produced prefix) and whether they agree"""
    r = []

    def judge(st, v, depth=0):
        w = v.w
        e = st.norm(E.linof(st, v.bits) if v.lin is None else v.lin)
        k = E.kconst(st, v)
        if k is None and depth == 0:
            # split on the result being 0
            for f in (lambda t: t.add_eq(e), lambda t: t.add_ge(laddc(e, -1))):
                t = st.copy()
                try:
                    f(t)
                except Infeasible:
                    continue
                judge(t, v, 1)
            return
        c = st.mem['olen'].cells.get(0)
        hw = E.hw(st)
        d = {'value': str(v) if k is None else str(k - (1 << w) if k >= 1 << (w - 1) else k), 'olen': str(c[1]) if c else 'unknown',
             'produced': show(hw), 'problems': []}
        ov = None
        if c is not None and c[0] == 8 and isinstance(c[1], IV):
            ov = c[1].lin if c[1].lin is not None else E.linof(st, c[1].bits)
        if k == 0:
            if ov is None:
                d['problems'].append('success is reported with an unknown output length')
            else:
                if not (st.prove(lsub(ov, hw)) and st.prove(lsub(hw, ov))):
                    d['problems'].append('success is reported with an output length (%s) that is not the number of bytes produced (%s)' % (show(st.norm(ov)), show(hw)))
        else:
            neg = (k is not None and k >= 1 << (w - 1)) or st.prove(laddc(e, -(1 << (w - 1))))
            if not neg:
                d['problems'].append('a failure result is not provably a negative error code (%s)' % d['value'])
            oz = ov is not None and st.norm(ov) == ZERO
            if not oz:
                d['problems'].append('failure %s leaves the output length at %s instead of 0' % (d['value'], d['olen']))
        r.append(d)

    for kind, st, v in res:
        if kind != 'ret':
            r.append({'value': str(kind), 'problems': ['leaves by %s instead of returning' % kind]})
        elif not isinstance(v, IV):
            r.append({'value': repr(v), 'problems': ['the result is not known']})
        else:
            judge(st, v)
    return r


def _w(q, entry, srcs, seconds):
    q.put(analyse(entry, srcs, seconds))


def run_all(seconds=700):
    build.irs(sorted({s for _, ss in DECODERS.values() for s in ss}))
    q = multiprocessing.Queue()
    ps = [multiprocessing.Process(target=_w, args=(q, e, ss, seconds)) for e, (_, ss) in DECODERS.items()]
    for p in ps:
        p.start()
    r = [q.get() for _ in ps]
    for p in ps:
        p.join()
    return sorted(r, key=lambda x: x['entry'])


KINDS = {'P01': ('bounds-write', 'out-gap', 'out-escape'),
         'P02': ('bounds-read', 'out-uninit', 'uaf', 'in-write'),
         'P04': ('shift', 'div0', 'align', 'assert', 'null', 'free')}
WHAT = {'bounds-write': 'store outside the object', 'bounds-read': 'load outside the object', 'out-uninit': 'load of output bytes not produced yet',
        'out-gap': 'store that leaves a gap in the output', 'out-escape': 'output buffer escapes', 'uaf': 'use of dead storage',
        'in-write': 'store into the input', 'shift': 'shift amount out of range', 'div0': 'division by zero', 'align': 'misaligned access',
        'assert': 'assertion can fail', 'null': 'null dereference', 'free': 'bad free'}


def check(prop, rep):
    rep.notes.append("Abstract interpretation (relational linear constraints, bit provenance, partitioned loop heads) of the LLVM IR of both "
                     "software decoders from their C entry points, for every input, input length and output capacity up to 2^47.")
    rep.assume += ['buffers are at most 2^47 bytes and do not overlap', 'IR of clang -O0 + sroa, x86-64 data layout']
    st = {}
    for d in run_all():
        name = DECODERS[d['entry']][0]
        rep.funcs.update(short_(f) for f in d.get('fns', []))
        st[d['entry']] = {'status': d['status'], 'seconds': d['wall'], 'abstract_steps': d.get('steps')}
        if d['status'] != 'ok':
            rep.notes.append("%s: %s" % (name, d['status']))
            continue
        st[d['entry']]['exits'] = [e['value'] for e in d['exits']]
        if prop == 'P03':
            for e in d['exits']:
                rep.obligation("%s: result %s, *olen %s, produced %s" % (name, e['value'], e.get('olen'), e.get('produced')))
                for m in e['problems']:
                    rep.violation((DECODERS[d['entry']][1][0], 0, d['entry']), m)
            continue
        for o in d['obs']:
            if o['kind'] in KINDS[prop]:
                rep.obligation("%s:%d %s %s %s x%d" % (o['file'], o['line'], o['fn'], o['kind'], o['obj'], o['ok'] + o['bad']))
                if o['bad']:
                    rep.violation((o['file'], o['line'], short_(o['fn'])),
                                  "%s: %s%s" % (WHAT[o['kind']], o['msg'], ' (via %s)' % o['stack'] if o['stack'] else ''))
    rep.cov['analyses'] = st


def short_(n):
    from irq import short
    return short(n)


if __name__ == '__main__':
    for x in run_all():
        print(x['entry'], x['status'], x['wall'], x.get('steps'), len(x.get('obs', [])))
        for e in x.get('exits', []):
            print('  ', e)
        for o in x.get('obs', []):
            if o['bad']:
                print('  BAD', o)
        print(x.get('fns'), x.get('ext'))
