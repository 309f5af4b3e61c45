#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current sources by static analysis."""
import os, signal, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tool'))
sys.setrecursionlimit(20000)
import build
from common import Report


def decoder(prop):
    def f(rep, tier):
        import decode
        decode.check(prop, rep)
    return f


def streams(*fns):
    def f(rep, tier):
        import stream
        build.irs(build.STREAM[:2])
        for s in build.STREAM[:2]:
            U = stream.StreamUnit(build.ir(s))
            for n in fns:
                getattr(stream, n)(U, rep)
    return f


def eff(name):
    def f(rep, tier):
        import effects
        getattr(effects, name)(rep)
    return f


def fmt(which):
    def f(rep, tier):
        import format
        format.check(rep, tier, which)
    return f


def compressors(which):
    def f(rep, tier):
        import encode
        encode.check(rep, tier, which)
    return f


def chunk(name):
    def f(rep, tier):
        import chunked
        getattr(chunked, name)(rep)
    return f


CHECKS = {
    'P01': ('proof', decoder('P01')),
    'P02': ('proof', decoder('P02')),
    'P03': ('proof', decoder('P03')),
    'P04': ('proof', decoder('P04')),
    'P05': ('other', compressors('P05')),
    'P06': ('other', fmt('P06')),
    'P07': ('other', eff('check_reentrancy')),
    'P08': ('other', eff('check_exceptions')),
    'P09': ('other', chunk('check_chunked')),
    'P10': ('other', streams('check_races')),
    'P11': ('other', streams('check_wakeups')),
    'P12': ('other', streams('check_shutdown')),
    'P13': ('other', streams('check_finalize')),
    'P14': ('other', streams('check_lock_order')),
    'P15': ('other', fmt('P15')),
    'P23': ('other', compressors('P23')),
    'P21': ('other', chunk('check_tables')),
}


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    def late(*_):
        raise TimeoutError('out of time')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(840 if tier == 'quick' else 4 * 3600)
    level, fn = CHECKS[prop]
    rep = Report(prop, level)
    try:
        fn(rep, tier)
    except build.BuildError as e:
        rep.notes.append('inconclusive: the sources do not compile: ' + str(e)[-600:])
        rep.viol = []
        print('inconclusive:', str(e)[-600:])
    except Exception:
        # never an alarm: an analyser that does not understand the code decides nothing
        tb = traceback.format_exc()
        rep.notes.append('inconclusive: analyser error: ' + tb[-800:])
        print('inconclusive: analyser error\n' + tb)
    sys.exit(rep.finish(tier))


if __name__ == '__main__':
    main()
