"""Reports, obligations, evidence and the command line."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VSA_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

RULES = {}          # property id -> list of (part, function, description)


def rule(pid, part, text):
    """register an analysis deciding (a part of) a property"""
    def deco(f):
        RULES.setdefault(pid, []).append((part, f, text))
        return f
    return deco


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.violations = []
        self.obligations = 0
        self.discharged = 0
        self.counts = {}
        self.samples = []
        self.part = None
        self.constructs = {}
        self.floor_errors = []

    def ob(self, construct, ok, detail='', where=None, path=None, rule=None):
        """one obligation about a construct"""
        self.obligations += 1
        c = self.constructs.setdefault(f'{self.part}:{construct}', [0, 0])
        c[0] += 1
        if ok:
            self.discharged += 1
        else:
            c[1] += 1
            self.violations.append(dict(
                part=self.part, construct=construct, rule=rule or detail,
                detail=detail, where=str(where or (
                    path.site if path is not None else '')),
                path=path.describe() if path is not None else ''))
        return ok

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n):
        """at least n instances of something must have been analysed"""
        have = self.counts.get(name, 0)
        if have < n:
            self.floor_errors.append(f'{name}: {have} analysed, at least {n} '
                                     f'expected')


def load_rules():
    from . import rules
    rules.load()


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    load_rules()
    if pid not in RULES:
        print(f'no rules for {pid}')
        return 2
    rep = Report(pid, tier)
    from .ctx import Context
    ctx = Context(SRC, tier)
    errors = []
    for part, f, text in RULES[pid]:
        rep.part = part
        try:
            f(ctx, rep)
        except Exception as e:      # analysis broken, never a verdict
            errors.append((part, e, traceback.format_exc()))
    for fe in rep.floor_errors:
        errors.append(('floor', fe, fe))
    known = known_findings(pid)
    fresh, old = [], []
    for v in rep.violations:
        for k in known:
            if k['part'] == v['part'] and k['construct'] == v['construct'] \
                    and k['rule'] == v['rule']:
                old.append((k, v))
                break
        else:
            fresh.append(v)
    evdir = os.environ.get('VSA_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, f'{pid}.report.txt')
    with open(replay, 'w', encoding='utf-8', errors='replace') as fo:
        for v in fresh:
            fo.write(f"property {pid}, analysis {v['part']}\n"
                     f"construct: {v['construct']}\nrule: {v['rule']}\n"
                     f"at: {v['where']}\n{v['detail']}\n{v['path']}\n\n")
        for part, e, tb in errors:
            fo.write(f'ANALYSIS BROKEN in {part}: {e}\n{tb}\n')
    wall = round(time.time() - t0, 3)
    cov = dict(
        explanation=' '.join(f'[{p}] {t}' for p, f, t in RULES[pid]),
        obligations=rep.obligations, discharged=rep.discharged,
        analysed=dict(rep.counts),
        per_construct={k: {'obligations': a, 'violated': b}
                       for k, (a, b) in sorted(rep.constructs.items())},
        functions_analysed=sorted(ctx.functions()),
        files=sorted(ctx.files()),
        shortened_explorations=sum(w.degraded for w in ctx.worlds.values()),
        samples=rep.samples[:8],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov,
              assumptions=ASSUMPTIONS, wall_s=wall, violations=len(fresh))
    with open(os.path.join(evdir, f'{pid}.json'), 'w') as fo:
        json.dump(ev, fo, indent=1, sort_keys=True)
        fo.write('\n')
    print(f'{pid}: {rep.obligations} obligations, {rep.discharged} '
          f'discharged, {len(ctx.functions())} functions, {wall}s; '
          + ', '.join(f'{k}={v}' for k, v in sorted(rep.counts.items())))
    seen = set()
    for k, v in old:
        key = (v['part'], v['construct'], v['rule'])
        if key not in seen:
            seen.add(key)
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if fresh:
        shown = set()
        for v in fresh:
            key = (v['construct'], v['rule'])
            if key in shown:
                continue
            shown.add(key)
            if len(shown) <= 12:
                print(f"  {v['construct']}: {v['rule']} [{v['where']}]")
        print(f'VIOLATION property={pid} replay={replay}')
        return 1
    if errors:
        for part, e, tb in errors:
            print(f'ANALYSIS BROKEN in {part}: {e}')
            print(tb[-1500:])
        return 2
    return 0


ASSUMPTIONS = [
    'opaque operations (on parameters, library objects, the wrapped object) '
    'may return or raise anything but do not change the analysed objects '
    'behind their backs',
    'loops over opaque collections are followed for up to two elements',
    'zope.proxy, zope.interface, zope.component, zope.configuration and the '
    'interpreter behave as modelled in vsa/pymodels.py and vsa/cmodels.py',
]
