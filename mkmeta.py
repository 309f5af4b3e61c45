#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source for both)."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
PROPS = []
NA = {}
CLAIM = {}


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), level=None, technique=None, note=None, na=None):
    assert len(title) <= 80, title
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
                  'why_tests_cant': why,
                  'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                              **({'state': [{'name': n, 'meaning': m} for n, m in state]} if state else {}),
                              **({'observe_at': list(observe)} if observe else {})}})
    if na:
        NA[id] = na
    else:
        CLAIM[id] = (level, technique, note)


SWD = 'src/serial/842_decompress.c'
OPD = 'src/serial_optimized/842_decompress.cpp'
SWC = 'src/serial/842_compress.c'
OPC = 'src/serial_optimized/842_compress.cpp'
CS = 'src/stream/DataCompressionStream.cpp'
DS = 'src/stream/DataDecompressionStream.cpp'
AI = ('abstract interpretation of LLVM IR (relational linear constraints, bit provenance, partitioned loop heads)')
BP = 'bit-provenance dataflow over LLVM IR (symbolic positions, no execution, no solver)'
STF = [CS, DS, 'include/lib842/stream/comp.h', 'include/lib842/stream/decomp.h', 'include/lib842/stream/block.h',
       'include/lib842/detail/barrier.h', 'include/lib842/detail/latch.h']
exec(open(os.path.join(D, 'props.py')).read())

with open(os.path.join(D, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p) + '\n')
checks = []
for id, (level, tech, note) in CLAIM.items():
    checks.append({'property': id, 'quick_cmd': 'python3 check.py %s --tier quick' % id,
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % id,
                   'evidence_file': 'evidence/%s.json' % id, 'level': level, 'technique': tech, 'level_note': note})
m = {'version': 1, 'setup_cmd': 'mkdir -p evidence && python3 -m compileall -q tool check.py', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': r} for i, r in NA.items()],
     'notes': 'Static analysis only: every check compiles /repo\'s current sources to LLVM IR in a scratch directory and decides the property on the IR; nothing of /repo is executed.'}
with open(os.path.join(D, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
