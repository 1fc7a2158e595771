"""Shows a replay file briefly."""
import json, sys
from collections import Counter
d = json.load(open(sys.argv[1]))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 5
W = int(sys.argv[3]) if len(sys.argv) > 3 else 420
print(Counter(x['clause'] for x in d))
KD = dict(strict=False, nulls=False, priv=False, props=False, cvars=False, attrs=[], kt='', verb=[], enumname='default', usec=False, store=False, fork=1, types=[], xtra=['none'], inferred=False, hints=[], getters=[], warn=False, tasks=1)
for x in sorted(d, key=lambda x: len(json.dumps(x.get('event', ''))))[:n]:
    e = x.get('event')
    if not e:
        print(x)
        continue
    print('---', x['clause'])
    for f in e:
        y = e[f]
        if f in ('k', 'k2'):
            y = {a: b for a, b in y.items() if KD.get(a) != b}
        if f in ('out', 'd'):
            y = (y['t'], y.get('v') if y['t'] == 'ok' else (y.get('k'), y.get('m'), y.get('a'), y.get('i')), y.get('w'))
        print('  ', f, str(y)[:W])
    ex = x.get('expected')
    print('   EXP', str((ex.get('t'), ex.get('v') or (ex.get('k'), ex.get('m'), ex.get('a'), ex.get('i')), ex.get('w')) if isinstance(ex, dict) else ex)[:W])
    w = x['world']['src']
    import re
    names = set(re.findall(r"'([A-Z][a-z]+W[0-9]+)'", str(e)))
    for part in w.split('\n\n'):
        pass
    for n_ in names:
        m = re.search(r"((?:@[^\n]*\n)?(?:class %s\b.*?|%s = [^\n]*))\nCLS\[" % (n_, n_), w, re.S)
        if m:
            print('     |', m.group(1).replace('\n', '\n     | '))
