#!/usr/bin/env python3
"""Is the binding tight?  corrupt.py Cnn N: runs the check once, keeping its traces, then corrupts one recorded field of one
event (a digit of an output, a verdict, an argument) or removes one event in each of N traces, and reports what TLC rejects."""
import sys, os, glob, json, random, shutil, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ['KEEP'] = '1'
import kverif, checks, relchecks
prop, N = sys.argv[1], int(sys.argv[2])
root = {}
orig = kverif.run_eps
def keep(p, eps, r, *a, **k):
    before = set(glob.glob(kverif.B + '/run/*')); x = orig(p, eps, r, *a, **k)
    for d in set(glob.glob(kverif.B + '/run/*')) - before: root[d] = (r, k.get('classes'))
    return x
checks.run_eps = relchecks.run_eps = keep
checks.CHECKS[prop](checks.Ctx(1, 'quick', prop))
R = random.Random(7); res = {}
eps = []
for d, (r, cl) in root.items():
    for t in sorted(glob.glob(d + '/*/trace.ndjson')):
        for e in kverif.episodes_of(t): eps.append((r, cl, e))
groups = {}
for r, cl, e in eps:
    b = json.loads(e[0]); groups.setdefault((r, b['g'] or b['id']), [cl, []])[1].extend(e)
G = [(r, cl, L) for (r, g), (cl, L) in groups.items() if len(L) > 2]
for q in range(N):
    r, cl, L = R.choice(G); L = [json.loads(x) for x in L]
    kind = R.choice(['output', 'verdict', 'input', 'drop'])
    C = [i for i, e in enumerate(L) if kind == 'drop' and e['op'] not in ('Begin', 'End') or kind == 'output' and e.get('o') or kind == 'verdict' and any(f in e for f in ('v', 'ok', 'rc')) or kind == 'input' and e.get('i')]
    if not C: continue
    i = R.choice(C); e = L[i]; op = e['op']
    if kind == 'drop': del L[i]
    elif kind == 'verdict':
        f = next(f for f in ('v', 'ok', 'rc') if f in e); e[f] = 1 - e[f] if e[f] in (0, 1) else e[f] + 1
    else:
        f = kind[0]; s = e[f]; k = R.randrange(len(s)); e[f] = s[:k] + format(int(s[k], 16) ^ 1 << R.randrange(4), 'x') + s[k + 1:]
    p = f'{kverif.B}/corrupt.ndjson'; open(p, 'w').write('\n'.join(json.dumps(x, separators=(',', ':')) for x in L) + '\n')
    rc, out = kverif.tlc(f'{kverif.V}/spec/{r}.tla', f'{kverif.V}/spec/{r}.cfg', env={'TRACE': p, **{c: '1' for c in cl or ()}}, args=['-workers', '1'])
    hit = 'REJECT|' in out or rc in (75, 76)
    a = res.setdefault((r, kind), [0, 0, []]); a[0] += hit; a[1] += 1
    if not hit: a[2].append(op)
for k, (h, n, m) in sorted(res.items()): print(prop, *k, f'{h}/{n} rejected', 'not:', m[:12])
for d in root: shutil.rmtree(d)
