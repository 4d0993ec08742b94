#!/usr/bin/env python3
"""Write MANIFEST.json from the rules that exist."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vsa import core    # noqa: E402

PY = ('path-sensitive dataflow analysis (abstract interpretation of the '
      'syntax tree over symbolic values)')
CC = ('path-sensitive dataflow, typestate and ownership analysis of the C '
      'extensions\' LLVM IR')
WITH_C = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C10', 'C14',
          'C33', 'C35', 'C43'}
ONLY_C = {'C31', 'C32'}
NA = {
    'C36': 'A statement about all programs and unbounded histories over an '
           'open world of wrapped objects and third-party checkers; no '
           'static argument over this source bounds what permitted '
           'operations of foreign objects return. Its per-operation parts '
           'are C01-C05, C10, C27 and C34.',
    'C37': 'Depends on the pickle machinery of the interpreter (protocol '
           'opcodes, copyreg, whichmodule) executing against the proxy, '
           'which is outside the analysed source; the part that is in the '
           'source (the marker\'s checker lets exactly the pickling names '
           'through, and the marker\'s module and name lead back to it) is '
           'in C35.',
    'C38': 'Relies on the atomicity of single dictionary operations of the '
           'interpreter (GIL and free-threading details); defineChecker is '
           'a check followed by a store without a lock, so what holds is a '
           'scheduling question no analysis of this source settles.',
    'C39': 'Quantifies over all ZCML documents, whose inclusion, conflict '
           'resolution and ordering are implemented by zope.configuration '
           'outside this repository; the per-directive parts are C19-C25 '
           'and C42.',
}


def level_note(pid):
    c = (' C code: analysed from LLVM IR compiled from the current source on '
         'every run, loops bounded, the CPython API as modelled in '
         'vsa/cmodels.py.' if pid in WITH_C | ONLY_C else '')
    return ('Sound up to the stated modelling: every path of the functions '
            'concerned is enumerated symbolically (nothing is executed, no '
            'solver); loops over opaque collections are unrolled to 2 '
            '(thorough: 3) elements; calls into the library and foreign '
            'objects are opaque and may return or raise anything; '
            'interpreter and zope library behaviour is modelled, not '
            'analysed.' + c)


def main():
    core.load_rules()
    props = [json.loads(x) for x in open(os.path.join(V,
                                                      'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        if pid in core.RULES:
            t = CC if pid in ONLY_C else PY + (
                ' and of the C extensions\' LLVM IR' if pid in WITH_C and
                any('C ' in part for part, f, x in core.RULES[pid]) else '')
            checks.append(dict(
                property=pid, quick_cmd=f'python3 check.py {pid}',
                thorough_cmd=f'python3 check.py {pid} --thorough',
                evidence_file=f'evidence/{pid}.json', technique=t,
                level='other', level_note=level_note(pid)))
        else:
            na.append(dict(property=pid, reason=NA.get(
                pid, 'no check built yet')))
    d = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
             notes='Static analysis only: nothing of /repo is imported or '
             'executed by a check. No hooks in /repo.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')


main()
