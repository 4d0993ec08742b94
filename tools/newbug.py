#!/usr/bin/env python3
"""tools/newbug.py SPEC.py...: make seeded/<id> from a specification file.

The file defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and
DEMO (python source run by the repository's interpreter) and optionally ENV.
"""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    g = {}
    exec(compile(open(spec).read(), spec, 'exec'), g)
    for bug in g.get('BUGS') or [g]:
        d = os.path.join(V, 'seeded', bug['ID'])
        os.makedirs(d, exist_ok=True)
        assert not subprocess.run(
            ['git', '-C', '/repo', 'status', '--short'],
            capture_output=True).stdout
        try:
            for f, old, new in bug['EDITS']:
                p = '/repo/src/zope/security/' + f
                s = open(p).read()
                assert s.count(old) == 1, (bug['ID'], f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.run(['git', '-C', '/repo', 'diff'],
                                  capture_output=True).stdout
        finally:
            subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(bug['DEMO'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\n' + ''.join(
                f'export {k}={v}\n' for k, v in
                (bug.get('ENV') or {'PURE_PYTHON': '0'}).items()) +
            'exec timeout 120 /opt/venv/bin/python '
            '"$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=bug['PROP'], needs=bug['NEEDS'],
                       what_it_breaks=bug['BREAKS']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print(bug['ID'])
