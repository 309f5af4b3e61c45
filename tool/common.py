"""Reporting, known findings and evidence for the checks."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, level='other', technique=''):
        self.prop = prop
        self.level = level
        self.obl = []
        self.viol = []
        self.notes = []
        self.funcs = set()
        self.cov = {}
        self.assume = []
        self.trusted = []
        self.t0 = time.time()

    def obligation(self, what, n=1):
        self.obl.append(what)

    def violation(self, inst, msg, key=None):
        """inst: an IR instruction (gives file:line and function), or a (file, line, function) triple, or None"""
        from irq import loc, short
        if inst is None:
            where, fn = '?', '?'
        elif isinstance(inst, tuple):
            where, fn = "%s:%s" % (inst[0], inst[1]), inst[2]
        else:
            where, fn = loc(inst), short(inst.fn.name)
        k = key or "%s: %s" % (fn, msg)
        if all((v['where'], v['msg']) != (where, msg) for v in self.viol):
            self.viol.append({'where': where, 'function': fn, 'msg': msg, 'key': k})

    def known(self):
        r = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith('finding: property=%s ' % self.prop):
                    r.append(l.split(' ', 2)[2])
        return r

    def finish(self, tier):
        known = self.known()
        new = []
        for v in self.viol:
            hit = [k for k in known if k == v['key']]
            if hit:
                print("KNOWN-FINDING: property=%s %s (%s)" % (self.prop, v['key'], v['where']))
            else:
                new.append(v)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        rp = os.path.join(VERIF, 'evidence', '%s.violations.txt' % self.prop)
        cov = {'obligations': len(self.obl), 'discharged': max(0, len(self.obl) - len(self.viol)),
               'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (self.prop, tier),
               'trusted_base': self.trusted or ['clang/LLVM 18 front end (source to IR)', '/verif/tool analyser'],
               'explanation': ' '.join(self.notes) or self.prop,
               'functions_analysed': len(self.funcs), 'functions': sorted(self.funcs)[:80],
               'samples': [str(o) for o in self.obl[:12]]}
        cov.update(self.cov)
        ev = {'property': self.prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': self.level,
              'coverage': cov, 'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        with open(os.path.join(VERIF, 'evidence', '%s.json' % self.prop), 'w') as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d violation(s), %d functions, %.1fs" % (self.prop, len(self.obl), len(self.viol), len(self.funcs), ev['wall_s']))
        if new:
            with open(rp, 'w') as f:
                for v in new:
                    f.write("%s: %s: %s\n" % (v['where'], v['function'], v['msg']))
            for v in new:
                print("  %s: in %s: %s" % (v['where'], v['function'], v['msg']))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        elif os.path.exists(rp):
            os.remove(rp)
        return 0
