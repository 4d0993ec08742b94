#!/bin/bash
# tools/trybug.sh ID...: apply a planted bug to /repo, confirm it (build,
# stable tests, demo), run its property's check (ALL=1: every check), undo it.
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
    d=$V/seeded/$id
    prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
    [ -z "$(git -C /repo status --short)" ] || { echo "/repo not clean"; exit 2; }
    bash /opt/vp/build.sh >/dev/null 2>&1
    (cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/demo0.log 2>&1); base=$?
    git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
    bash /opt/vp/build.sh >/tmp/build.log 2>&1; b=$?
    t=skipped
    if [ -z "$NOTEST" ]; then
        bash /opt/vp/test.sh /tmp/t.json >/tmp/test.log 2>&1
        t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def ids(d,*ks):
    for k in ks:
        if k in d: return set(d[k])
    return set()
want=set(b['stable']); have=set(t['passed'])
m=want-have
print('ok' if not m and want else f'{len(m)} of {len(want)} failing: {sorted(m)[:3]}')
P
)
    fi
    (cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/demo1.log 2>&1); dm=$?
    echo "== $id ($prop): base-demo=$base build=$b tests=$t demo=$dm"
    if [ -n "$ALL" ]; then
        for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']])"); do
            (cd "$V" && python3 check.py "$p" >/tmp/chk.$p.log 2>&1; r=$?; [ $r = 0 ] || echo "   $p exit $r: $(grep -m2 '^  ' /tmp/chk.$p.log | cut -c1-220)") &
        done; wait
    else
        (cd "$V" && python3 check.py "$prop" >/tmp/chk.log 2>&1); r=$?
        echo "   $prop exit $r: $(grep -m2 '^  ' /tmp/chk.log | cut -c1-300)"
    fi
    git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
done
