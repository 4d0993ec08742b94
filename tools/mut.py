#!/usr/bin/env python3
"""mut.py SPEC.py [name...]: apply each mutation of SPEC's MUTS to a scratch
copy and run the given properties' checks on it.
MUTS = [(name, [props], [(file, old, new), ...], expected)] with expected
True (caught), False (quiet) or None."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
top = tempfile.mkdtemp(prefix='mut')


def one(m):
    name, props, edits, want = m
    d = os.path.join(top, name)
    shutil.copytree('/repo/src', d + '/src')
    if os.path.isdir('/repo/include'):
        shutil.copytree('/repo/include', d + '/include')
    for f, old, new in edits:
        p = f'{d}/src/zope/security/{f}'
        s = open(p).read()
        if s.count(old) < 1:
            return name, 'EDIT FAILS: ' + old[:60]
        open(p, 'w').write(s.replace(old, new, 1))
    out = []
    ok = True
    if props == ['ALL']:
        props = [c['property'] for c in json.load(open(os.path.join(
            V, 'MANIFEST.json')))['checks']]
    for pid in props:
        env = dict(os.environ, VSA_REPO=d, VSA_EVIDENCE=d)
        r = subprocess.run(['python3', os.path.join(V, 'check.py'), pid],
                           capture_output=True, text=True, env=env)
        lines = [x for x in r.stdout.splitlines() if x.startswith('  ')]
        if r.returncode == 0 and len(props) > 12:
            continue
        out.append(f'{pid}={r.returncode} '
                   + (lines[0].strip()[:150] if r.returncode == 1 and lines
                      else (r.stdout + r.stderr)[-300:]
                      if r.returncode > 1 else ''))
        if want is not None and r.returncode != (1 if want else 0):
            ok = False
    shutil.rmtree(d)
    return name, ('' if ok else '*** ') + '; '.join(out)


with ThreadPoolExecutor(8) as ex:
    for name, res in ex.map(one, [m for m in ns['MUTS']
                                  if not only or m[0] in only]):
        print(f'{name}: {res}', flush=True)
shutil.rmtree(top)
