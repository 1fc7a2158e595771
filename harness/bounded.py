"""The bounded models: TLC checks the specification exhaustively within bounds, and what it enumerates is
replayed with the real code (and judged by Trace.tla like everything else)."""
import json
import os
import random

import jw
from jw import NOT, NT, NONE


def K(**kw):
    from props import K
    return K(**kw)


def small_world():
    """The world of Shapes.tla."""
    w = jw.World('small')
    w.add_data('Small', [('x', ['int'], ['req']), ('first_name', ['union', [['str'], NT]], ['val', NONE])], [], 'data')
    w.add_data('Sub', [('items', ['list', ['int']], ['val', ['list', []]])], ['Small'], 'data')
    w.add_enum('Hue', [('red', ['int', 1]), ('blue', ['str', 'red'])])
    w.add_nt('Duo', [('x', ['int'], ['req']), ('items', ['union', [['cls', 'Small'], NT]], ['val', NONE])])
    w.add_newtype('Num', ['int'])
    return w


def worlds_file(ck, w, **more):
    path = os.path.join(ck.dir, 'bounded_%s.ndjson' % w.mod)
    with open(path, 'w') as f:
        f.write(json.dumps(dict(w.record(), names=[], odd=[], **more)) + '\n')
    return path


def has(T, *tags):
    return T[0] in tags or any(has(x, *tags) for x in T[1:] if isinstance(x, list) and x and isinstance(x[0], str)) \
        or any(has(y, *tags) for x in T[1:] if isinstance(x, list) for y in x if isinstance(y, list) and y)


def shapes(ck, n, opts, types=None):
    """Check Shapes on the bounds of the tier, and replay n of its cases with options drawn from opts."""
    big = '_big' if ck.thorough or ck.pid not in ('C03', 'C07', 'C20') else ''
    w = small_world()
    env = dict(JW_WORLDS=worlds_file(ck, w), JW_OUT=ck.dir)
    ck.model_check('Shapes.tla', 'MC_Shapes_%s%s.cfg' % (ck.pid, big), env)
    ck.model_check('Shapes.tla', 'CASES_Shapes%s.cfg' % big, env)
    with open(os.path.join(ck.dir, 'shapes.ndjson')) as f:
        rows = [json.loads(x) for x in f]
    js, rows = sorted(rows[0], key=json.dumps), sorted(rows[1:], key=json.dumps)
    if types:
        rows = [x for x in rows if types(x[0])]
    r = random.Random('%s-shapes' % ck.seed)
    wi = ck.add_world(w)
    if ck.pid in ('C03', 'C07', 'C20'):
        cases = [(T, j) for T, _ in rows for j in js]
        mk = 'load'
    else:
        cases = [(T, v) for T, vs in rows for v in vs]
        mk = 'rt' if ck.pid != 'C01' else 'dump'
    total = len(cases)
    cases = cases if len(cases) <= n else r.sample(cases, n)
    evs = []
    for T, x in cases:
        o = opts(r)
        T1 = o.pop('T', T)
        if mk == 'load':
            evs.append(dict(op='load', j=x, T=T, k=K(**o)))
        elif mk == 'dump':
            evs.append(dict(op='dump', v=x, T=T1, k=K(**o)))
        else:
            k2 = K(**o.pop('k2', {}))
            evs.append(dict(op='rt', v=x, T=T1 if T1 != T else NOT, T2=o.pop('T2', T), k=K(**o), k2=k2,
                            text=r.random() < .3, strong=False))
    for i in range(0, len(evs), 60):
        ck.session(wi, evs[i:i + 60])
    ck.bounded = getattr(ck, 'bounded', [])
    ck.bounded.append('Shapes: %d of %d cases replayed' % (len(cases), total))


def family():
    """The world of Forks.tla."""
    w = jw.World('family')
    w.add_data('Base', [('x', ['int'], ['val', ['int', 0]])], [], 'data')
    w.add_data('Side', [('side', ['int'], ['val', ['int', 0]])], [], 'data')
    w.add_data('Mid', [], ['Base'], 'data')
    w.add_data('Leaf', [], ['Mid', 'Side'], 'data')
    for n in range(1, 7):
        w.fn['s%d' % n] = ['tag', 's%d' % n]
        w.fn['d%d' % n] = ['tag', 'd%d' % n]
        w.fn['v%d' % n] = ['raise', 'v%d' % n]
    return w


FAMILY = {'Base': [['x', ['int', 1]]], 'Mid': [['x', ['int', 1]]], 'Side': [['side', ['int', 2]]],
          'Leaf': [['side', ['int', 2]], ['x', ['int', 1]]]}
NAIVE = ['dtn', [2020, 1, 2, 3, 4, 5, 0]]


def queries(r, kinds, f):
    """What shows which functions and suppressions count on the fork f."""
    out = []
    for kind, op in (('ser', 'setser'), ('des', 'setdes'), ('val', 'setval')):
        if op not in kinds:
            continue
        for T in [['cls', n] for n in FAMILY] + [['int'], ['bool'], ['float']]:
            out.append(dict(op='which', kind=kind, T=T, f=f))
        for n, at in FAMILY.items():
            T = ['cls', n]
            wrap = r.choice([lambda x: x, lambda x: x, lambda x: ['list', [x]]])
            if kind == 'ser':
                out.append(dict(op='dump', v=wrap(['obj', n, at]), T=NOT, k=K(fork=f)))
            else:
                j = ['dict', [[['str', a], x] for a, x in at]]
                out.append(dict(op='load', j=wrap(j), T=T if wrap(0) == 0 else ['list', T], k=K(fork=f)))
    if {'suppress', 'suppresscode'} & set(kinds):
        out.append(dict(op='dump', v=r.choice([NAIVE, ['list', [NAIVE]]]), T=NOT, k=K(fork=f)))
    return out


def histories(ck, name, n, mc=()):
    """Check Forks, and replay n of the histories that it exports, with queries in between and at the end."""
    import tlc
    big = '_big' if ck.thorough else ''
    w = family()
    env = dict(JW_WORLDS=worlds_file(ck, w))
    for c in mc:
        ck.model_check('Forks.tla', 'MC_Forks%s%s.cfg' % (c, big), env)
    out = ck.model_check('Forks.tla', 'HIST_%s%s.cfg' % (name, big), env)
    hists = sorted({json.dumps(p[1], sort_keys=True) for p in tlc.prints(out, 'JWHIST')})
    if not hists:
        raise RuntimeError('no histories')
    r = random.Random('%s-forks' % ck.seed)
    total = len(hists)
    if total > n:
        hists = r.sample(hists, n)
    wi = ck.add_world(w)
    for h in hists:
        evs, nf = [], 1
        h = json.loads(h)
        kinds = {e['op'] for e in h}
        for e in h:
            if e['op'].startswith('set'):
                e.update(aslist=r.random() < .2, defaults=r.random() < .5)
                if r.random() < .2 and e['op'] != 'setval':
                    e['via'] = 'cls'
            if e['op'] == 'fork':
                e['via'] = r.choice(['', 'cls'])
            evs.append(e)
            nf += e['op'] == 'fork'
            if r.random() < .4:
                q = queries(r, kinds, r.randint(1, nf))
                evs += r.sample(q, min(2, len(q)))
        for f in range(1, nf + 1):
            evs += queries(r, kinds, f)
        ck.session(wi, evs, fresh=True)
    ck.bounded = getattr(ck, 'bounded', [])
    ck.bounded.append('Forks: %d of %d histories replayed' % (len(hists), total))


def styles(ck, n):
    """Check Styles, and replay its texts with the real key transformers."""
    import tlc
    big = '_big' if ck.thorough else ''
    ck.model_check('Styles.tla', 'MC_Styles%s.cfg' % big)
    out = ck.model_check('Styles.tla', 'TEXTS_Styles%s.cfg' % big)
    texts = sorted({p[1] for p in tlc.prints(out, 'JWTEXT')})
    total = len(texts)
    r = random.Random('%s-styles' % ck.seed)
    if total > n:
        texts = r.sample(texts, n)
    wi = ck.add_world(jw.World('styles'))
    evs = [dict(op='kt', kt=k, s=t) for t in texts for k in ('camel', 'snake', 'pascal', 'lisp')]
    for i in range(0, len(evs), 200):
        ck.session(wi, evs[i:i + 200])
    ck.bounded = getattr(ck, 'bounded', [])
    ck.bounded.append('Styles: %d of %d texts replayed' % (len(texts), total))


def moments(ck, nm, nt):
    """Check Moments, and replay its dates, times and texts."""
    import tlc
    big = '_big' if ck.thorough else ''
    r = random.Random('%s-moments' % ck.seed)
    wi = ck.add_world(jw.World('moments'))
    ck.model_check('Moments.tla', 'MC_Moments.cfg')
    ck.model_check('Moments.tla', 'MC_Texts.cfg')
    if big:
        ck.model_check('Moments.tla', 'MC_Texts_big.cfg', timeout=1200)
    evs, note = [], []
    out = ck.model_check('Moments.tla', 'CASES_Moments.cfg')
    ms = sorted((p[1] for p in tlc.prints(out, 'JWCASE')), key=json.dumps)
    total = len(ms)
    for m in (ms if total <= nm else r.sample(ms, nm)):
        T = r.choice([NOT, ['datetime']])
        f = m[1]
        k = r.random()
        if k < .5:
            evs.append(dict(op='rt', v=m, T=T, T2=['datetime'], k=K(usec=r.random() < .3), text=r.random() < .5, strong=False))
        elif k < .7:
            evs.append(dict(op='rt', v=m, T=T, T2=NOT, k=K(), text=True, strong=m[3] != 'zero'))
        elif k < .8:
            evs.append(dict(op='rt', v=['date'] + f[:3], T=NOT, T2=['date'], k=K(), text=True, strong=True))
        elif k < .9:
            evs.append(dict(op='rt', v=['time'] + f[3:], T=NOT, T2=['time'], k=K(), text=True, strong=True))
        else:
            evs.append(dict(op='dump', v=['list', [m, ['dict', [[['str', 'k'], m]]]]], T=NOT, k=K(usec=r.random() < .5)))
    note.append('Moments: %d of %d moments replayed' % (min(nm, total), total))
    out = ck.model_check('Moments.tla', 'CASES_Texts%s.cfg' % big)
    ts = sorted({p[1] for p in tlc.prints(out, 'JWCASE')})
    total = len(ts)
    for t in (ts if total <= nt else r.sample(ts, nt)):
        for T in (NOT, ['datetime'], ['date'], ['time'], ['union', [['date'], ['time'], ['datetime'], ['str']]]):
            evs.append(dict(op='load', j=['str', t], T=T, k=K()))
    note.append('Moments: %d of %d texts replayed' % (min(nt, total), total))
    for e in evs:
        e['tz'] = 'UTC'
    for i in range(0, len(evs), 60):
        ck.session(wi, evs[i:i + 60])
    ck.bounded = getattr(ck, 'bounded', []) + note


def cases(ck, name, w, n=None, tag='JWCASE', timeout=600, **more):
    """Check the model, and what it exports of its cases."""
    import tlc
    big = '_big' if ck.thorough else ''
    env = dict(JW_WORLDS=worlds_file(ck, w, **more))
    ck.model_check(name + '.tla', 'MC_%s%s.cfg' % (name, big), env, timeout=timeout)
    out = ck.model_check(name + '.tla', 'CASES_%s%s.cfg' % (name, big), env, extra=('-seed', str(ck.seed)))
    rows = [json.loads(x) for x in sorted({json.dumps(p[1:]) for p in tlc.prints(out, tag)})]
    if not rows:
        raise RuntimeError('no cases')
    total = len(rows)
    r = random.Random('%s-%s' % (ck.seed, name))
    if n and total > n:
        rows = r.sample(rows, n)
    ck.bounded = getattr(ck, 'bounded', [])
    ck.bounded.append('%s: %d cases replayed' % (name, len(rows)))
    return rows, r


def metas_world():
    """The world of Metas.tla."""
    w = jw.World('metas')
    r = ['req']
    w.add_data('Base', [('x', ['int'], r)], [], 'data')
    w.add_data('Sub', [('y', ['int'], ['val', ['int', 0]])], ['Base'], 'data')
    w.add_plain('Other', [('x', jw.NOT, r)])
    w.add_data('Hidden', [('x', ['int'], r)], [], 'data', imp=False)
    w.add_data('MBase', [('one', ['cls', 'Base'], r)], [], 'data')
    w.add_data('MObj', [('one', ['object'], r)], [], 'data')
    w.add_data('MOpt', [('one', ['union', [['cls', 'Base'], NT]], r)], [], 'data')
    w.add_plain('MNone', [('one', NOT, r)])
    w.add_plain('MRest', [])
    w.add_data('TBase', [('one', ['cls', 'MBase'], r)], [], 'data')
    w.add_data('TObj', [('one', ['object'], r)], [], 'data')
    w.add_plain('TNone', [('one', NOT, r)])
    return w


def selection_world():
    """The world of Selection.tla: (world, {class: its two instances})."""
    w = jw.World('selection')
    opt = ['union', [['int'], NT]]
    val = lambda x: ['val', x]
    inst = {}
    props = [('q', 'ro', ['const', ['int', 11]]), ('nq', 'ro', ['const', NONE]), ('_pq', 'ro', ['const', ['int', 12]])]
    cvs = [('cv', ['int', 21]), ('ncv', NONE), ('_cv', ['int', 22])]
    fields = [('x', opt), ('y', opt), ('_p', opt)]

    def put(n, own, extra=()):
        for i in range(2):
            at = [[a, ['int', 1 + len(a) + i] if (a != 'y') != (i == 1 and a == '_p') else NONE] for a in own] + list(extra)
            inst.setdefault(n, []).append(['obj', n, sorted(at)])

    def plain(n, own=('x', 'y', '_p'), typed=True, p=props, c=cvs, **kw):
        w.add_plain(n, [(a, opt if typed else NOT, val(NONE)) for a in own], cvs=c, props=p, **kw)
        return n
    for bits in range(8):
        put(plain('P%d' % bits, tuple(a for i, a in enumerate(['x', 'y', '_p']) if bits >> i & 1), bits % 2 == 0),
            [a for i, a in enumerate(['x', 'y', '_p']) if bits >> i & 1])
    for bits in range(1, 7):
        put(plain('V%d' % bits, ('x', '_p'), p=[p for i, p in enumerate(props) if bits >> i & 1],
                  c=[c for i, c in enumerate(cvs) if bits >> (2 - i) & 1]), ['x', '_p'])
    put(plain('Body', ('x',), body=[('y', ['int']), ('_p', ['int'])], c=[('y', ['int', 31]), ('_p', NONE)]), ['x'])
    w.add_plain('Apart', [(a.lstrip('_'), opt, val(NONE)) for a in ('x', '_p', '_y')], cvs=cvs, props=props,
                attrs={'p': '_p', 'y': '_y'})
    put('Apart', ['x', '_p', '_y'])
    put(plain('Json', k='jsonser'), ['x', 'y', '_p'])
    put(plain('Slot', slots=True, p=props[:1], c=[]), ['x', 'y', '_p'])
    put(plain('Abst', typed=False, abc=True), ['x', 'y', '_p'])
    for k in ('data', 'attrs'):
        w.add_data(k.title(), [(a, T, val(NONE) if a == 'y' else val(['int', 5])) for a, T in fields], (), k, props=props)
        put(k.title(), ['x', 'y', '_p'])
    w.add_data('Frozen', [(a, T, ['req']) for a, T in fields], (), 'data', frozen=True, slots=True)
    put('Frozen', ['x', 'y', '_p'])
    # A subclass has other members under the names of its superclass.
    w.add_plain('Sub', [('z', opt, val(NONE))], ['P7'], props=[('cv', 'ro', ['const', ['int', 41]])],
                cvs=[('q', ['int', 42]), ('more', NONE)])
    put('Sub', ['x', 'y', '_p', 'z'])
    w.add_plain('Gone', [('z', opt, val(NONE))], ['P7'], gone=['q', 'cv'])
    put('Gone', ['x', 'y', '_p', 'z'])
    w.add_plain('Less', [], ['P1'], k='plain', own_init=False, props=[('y', 'ro', ['const', NONE])])
    put('Less', ['x'])
    w.add_data('SubData', [('z', ['int'], val(['int', 6]))], ['Data'], 'data', props=[('q', 'ro', ['attr', 'z'])])
    put('SubData', ['x', 'y', '_p', 'z'])
    w.add_plain('SubSlot', [('z', opt, val(NONE))], ['Slot'])
    put('SubSlot', ['x', 'y', '_p', 'z'])
    w.add_plain('Hold', [('one', NOT, ['req'])], props=[('hq', 'ro', ['const', ['int', 51]])], cvs=[('hv', ['int', 52])])
    w.add_nt('Pair', [('one', ['any'], ['req']), ('two', ['int'], val(['int', 1]))])
    return w, inst


def c08(ck):
    w, inst = selection_world()
    rows, r = cases(ck, 'Selection', w, 40000 if ck.thorough else 6000, inst=inst)
    wi = ck.add_world(w)
    evs = [dict(op='dump', v=v, T=T, k=K(**o)) for v, T, o in rows]
    for i in range(0, len(evs), 60):
        ck.session(wi, evs[i:i + 60])


def keys_world():
    """The world of KeyCases.tla: (world, [key type, keys])."""
    import gen
    w = jw.World('keys')
    w.add_data('Small', [('x', ['int'], ['req']), ('first_name', ['union', [['str'], NT]], ['val', NONE])], [], 'data')
    w.add_enum('Hue', [('red', ['int', 1]), ('blue', ['str', 'b']), ('grey', NONE)])
    w.add_nt('Duo', [('x', ['int'], ['req']), ('name', ['str'], ['req'])])
    w.add_data('Frozen', [('x', ['int'], ['req']), ('level', ['union', [['str'], NT]], ['val', NONE])],
               [], 'data', frozen=True)
    i = lambda n: ['int', n]
    s = lambda x: ['str', x]
    f = lambda x: ['flt', -1 if x < 0 else 1, abs(x), 0]
    g = gen.G('keys')
    out = []

    def some(T, n=4):
        vs = []
        while len(vs) < n:
            v = g.value(T, 2)
            if v not in vs and not (v[0] == 'flt' and v[3] == 0) \
                    and not (v[0] == 'dec' and float(v[1]) == int(float(v[1]))):    # (they may equal an int key)
                vs.append(v)
        out.append([T, vs])
    out.append([['str'], [s('sa'), s(''), s('1'), s('first_name')]])
    out.append([['int'], [i(7), i(10), i(-2), i(1003)]])
    out.append([['bool'], [['bool', True], ['bool', False]]])
    for T in ('date', 'uuid', 'time', 'timedelta', 'path', 'float', 'decimal', 'datetime'):
        some([T])
    out.append([['cls', 'Hue'], [['enum', 'Hue', 'red'], ['enum', 'Hue', 'blue'], ['enum', 'Hue', 'grey']]])
    # hash(-1) = hash(-2)
    out.append([['tuplee', ['int']], [['tuple', [i(-1)]], ['tuple', [i(-2)]], ['tuple', []], ['tuple', [i(-1), i(-2)]]]])
    out.append([['tuplen', [['int'], ['str']]], [['tuple', [i(a), s(b)]] for a, b in
                                                 ((-1, 'a'), (-2, 'a'), (1, ''), (-2, 'b'))]])
    out.append([['tuplen', [['tuplee', ['int']], ['str']]], [['tuple', [['tuple', [i(a)]], s('a')]]
                                                             for a in (-1, -2, 3, 4)]])
    out.append([['cls', 'Duo'], [['nt', 'Duo', [i(a), s(b)]] for a, b in ((-1, 'n'), (-2, 'n'), (1, 'm'), (2, 'm'))]])
    out.append([['cls', 'Frozen'], [['obj', 'Frozen', [['level', b], ['x', i(a)]]] for a, b in
                                    ((-1, NONE), (-2, NONE), (1, s('')), (-1, s('')))]])
    out.append([['complex'], [['cplx', f(a), f(b)] for a, b in
                              ((1, -1), (1, -2), (0, 1), (2, 0))]])
    return w, out


def c10(ck):
    w, keys = keys_world()
    rows, r = cases(ck, 'KeyCases', w, 40000 if ck.thorough else 5000, keys=keys)
    wi = ck.add_world(w)
    evs = []
    for v, T, mixed, nulls in rows:
        if mixed or nulls:
            evs.append(dict(op='dump', v=v, T=NOT, k=K(nulls=nulls)))
        else:
            text = r.random() < .4      # (keys that are no strings become strings)
            evs.append(dict(op='rt', v=v, T=T if r.random() < .5 else NOT, T2=T, k=K(), k2=K(),
                            text=text, strong=not text))
    for i in range(0, len(evs), 60):
        ck.session(wi, evs[i:i + 60])


def c16(ck):
    moments(ck, 3600 if ck.thorough else 1200, 12000 if ck.thorough else 1400)


def c03(ck):
    shapes(ck, 80000 if ck.thorough else 8000, lambda r: {'strict': True} if r.random() < .15 else {})


def c07(ck):
    shapes(ck, 80000 if ck.thorough else 8000, lambda r: {'strict': True} if r.random() < .1 else {},
           lambda T: has(T, 'union', 'nonetype', 'newtype'))


def c20(ck):
    shapes(ck, 60000 if ck.thorough else 6000, lambda r: {'strict': True}, lambda T: has(T, 'cls', 'list', 'dict'))


def c05(ck):
    w = metas_world()
    rows, r = cases(ck, 'Metas', w)
    wi = ck.add_world(w)
    pre = [dict(op='announce', T=['cls', 'Sub'], name='my.Alias')]
    evs = [dict(op='load', j=j, T=T, k=K(strict=False)) for j, T in rows]
    for i in range(0, len(evs), 60):
        ck.session(wi, json.loads(json.dumps(pre)) + evs[i:i + 60], fresh=True)


def params_world(wide=True):
    """The world of Params.tla: every pair of parameters, in several kinds of classes."""
    w = jw.World('params')
    types = [['int'], ['union', [['int'], NT]], NOT]
    defaults = [['req'], ['val', ['int', 5]], ['val', ['int', 0]], ['val', NONE]]
    one = [(T, d) for T in types for d in defaults]
    for a, (T, d) in enumerate(one):
        for b, (T2, d2) in enumerate(one):
            if d[0] == 'val' and d2[0] == 'req':
                continue
            fields = [('x', T, d), ('y', T2, d2)]
            ex = [('extra', ['int'])] if (a + b) % 2 else []
            n = '%d_%d' % (a, b)
            w.add_plain('P' + n, fields, body=ex)
            if wide and (a + b) % 3 == 0 and NOT not in (T, T2):
                w.add_data('D' + n, fields, (), 'data')
                w.add_nt('N' + n, fields)
            if wide and (a + b) % 3 == 1 and NOT not in (T, T2):
                w.add_data('A' + n, fields, (), 'attrs', frozen=b % 2 == 0)
                w.add_data('K' + n, fields, (), 'data', kwonly=True)
            if wide and (a * 12 + b) % 5 == 0:
                w.add_plain('V' + n, fields, va='rest' if b % 2 else None, vk='more')
            if wide and (a * 12 + b) % 5 == 1:
                w.add_plain('S' + n, [('x', T, d)])
                w.add_plain('T' + n, [('y', T2, d2)], bases=['S' + n], attrs={'y': '_y'})
    return w


def c06(ck):
    w = params_world()
    rows, r = cases(ck, 'Params', w, 60000 if ck.thorough else 6000)
    wi = ck.add_world(w)
    evs = []
    for j, T, getters in rows:
        if not getters and r.random() < .2:
            j, T = r.choice([(['list', [j]], ['list', T]), (['dict', [[['str', 'k'], j]]], ['dict', ['str'], T]),
                             (j, ['union', [T, NT]]), (['list', [j]], ['tuplen', [T]])])
        evs.append(dict(op='load', j=j, T=T, k=K(getters=getters)))
    for i in range(0, len(evs), 60):
        ck.session(wi, evs[i:i + 60])


def c01(ck):
    def opts(r):
        o = {'T': NOT} if r.random() < .5 else {}
        if r.random() < .2:
            o['strict'] = True
        return o
    shapes(ck, 40000 if ck.thorough else 4000, opts)


def c02(ck):
    shapes(ck, 40000 if ck.thorough else 4000, lambda r: {})


def c04(ck):
    shapes(ck, 40000 if ck.thorough else 4000, lambda r: {'verb': r.choice([['class'], ['class', 'time']]),
                                                          'T2': NOT}, lambda T: has(T, 'cls'))


def c09(ck):
    shapes(ck, 40000 if ck.thorough else 4000, lambda r: {'kt': r.choice(['camel', 'pascal', 'lisp', 'snake']),
                                                          'k2': {'kt': 'snake'}})
    styles(ck, 8000 if ck.thorough else 1600)


def c11(ck):
    n = 2500 if ck.thorough else 250
    histories(ck, 'ser', n, [''])
    histories(ck, 'des', n, ['_des'])


def c12(ck):
    histories(ck, 'fork', 4000 if ck.thorough else 500, [''])


def c14(ck):
    histories(ck, 'val', 4000 if ck.thorough else 400, [''])


def failures_world():
    """The world of Failures.tla."""
    w = jw.World('fails')
    w.add_data('Small', [('x', ['int'], ['req']), ('first_name', ['union', [['str'], NT]], ['val', NONE])], [], 'data')
    w.add_data('Broken', [('x', ['int'], ['req'])], [], 'data')
    w.add_data('Rec', [(a, ['any'], ['req']) for a in 'abc'], [], 'data')
    for lt, T in (('int', ['int']), ('opt', ['union', [['int'], NT]]), ('Small', ['cls', 'Small'])):
        w.add_data('Pair' + lt, [('x', T, ['req']), ('y', T, ['req'])], [], 'data')
        for i, I in (('list', ['list', T]), ('tuple', ['tuplee', T]), ('dict', ['dict', ['str'], T]),
                     ('pair', ['cls', 'Pair' + lt])):
            w.add_data('Box%s%s' % (i, lt), [('x', I, ['req']), ('y', I, ['req'])], [], 'data')
    w.fn['sx'] = ['raise']
    return w


def c21(ck):
    w = failures_world()
    rows, r = cases(ck, 'Failures', w, 30000 if ck.thorough else 5000)
    wi = ck.add_world(w)
    evs = []
    for row in rows:
        if row[0] == 'load':
            _, j, T, warn = row
            evs.append(dict(op='load', j=j, T=T, k=K(warn=warn)))
        else:
            _, v, strict, nulls = row
            evs.append(dict(op='dump', v=v, T=NOT, k=K(strict=strict, nulls=nulls)))
    pre = dict(op='setser', f=1, Ts=[['cls', 'Broken']], fn='sx', aslist=False, hi=True, defaults=True)
    for i in range(0, len(evs), 60):
        ck.session(wi, [pre] + evs[i:i + 60], fresh=True)


def menu():
    """The calls of Orders.tla, with the types that take part in each."""
    S, Sub = ['cls', 'Small'], ['cls', 'Sub']
    i = lambda n: ['int', n]
    s = lambda x: ['str', x]
    d = lambda **x: ['dict', [[s(k), v] for k, v in x.items()]]
    small = ['obj', 'Small', [['x', i(1)], ['first_name', s('n')]]]
    sub = ['obj', 'Sub', [['x', i(2)], ['first_name', NONE], ['items', ['list', [i(3)]]]]]
    dt = ['dt', [2020, 1, 2, 3, 4, 5, 0], 0, 'utc']
    off = ['dt', [2020, 1, 2, 3, 4, 5, 0], 120, 'fixed']
    duo = ['nt', 'Duo', [i(5), small]]
    out = []

    def dump(v, T, inv, **k):
        out.append(dict(op='dump', v=v, T=T, k=K(**k), inv=inv))

    def load(j, T, inv, **k):
        out.append(dict(op='load', j=j, T=T, k=K(**k), inv=inv))
    B = [['int'], ['str'], ['nonetype']]
    dump(small, NOT, [S] + B)
    dump(small, S, [S] + B, nulls=True)
    dump(sub, NOT, [S, Sub, ['list']] + B)
    dump(sub, S, [S, Sub, ['list']] + B)
    dump(sub, S, [S, Sub, ['list']] + B, strict=True)
    dump(sub, NOT, [S, Sub, ['list']] + B, verb=['class'])
    dump(['list', [small, sub]], NOT, [S, Sub, ['list']] + B, kt='camel')
    dump(['dict', [[['tuple', [i(1)]], sub]]], NOT, [S, Sub, ['list'], ['tuple'], ['dict']] + B)
    dump(duo, NOT, [S, ['cls', 'Duo'], ['tuple']] + B)
    dump(dt, NOT, [['datetime']])
    dump(['list', [off, ['dtn', [2020, 1, 2, 3, 4, 5, 0]]]], NOT, [['datetime'], ['list']])
    dump(['enum', 'Hue', 'red'], NOT, [['cls', 'Hue'], ['enum']])
    dump(['enum', 'Hue', 'blue'], NOT, [['cls', 'Hue'], ['enum']], enumname='no')
    dump(s('a'), ['int'], [['str'], ['int']])
    dump(['list', [i(1), ['bool', True], NONE]], NOT, [['int'], ['bool'], ['list'], ['nonetype']])
    inv = [S, ['int'], ['str'], ['nonetype'], ['datetime'], ['union'], ['list'], ['dict']]
    js, jsub = d(x=i(1), first_name=s('n')), d(x=i(1), items=['list', [i(1), s('2')]])
    load(js, S, inv)
    load(d(x=s('q')), S, inv)
    load(d(first_name=s('n')), S, inv)
    load(d(x=i(1), more=i(2)), S, inv)
    load(d(x=i(1), more=i(2)), S, inv, strict=True)
    load(d(x=i(1), firstName=s('n')), S, inv, kt='snake')
    load(jsub, Sub, [Sub] + inv)
    load(['list', [js, d()]], ['list', S], inv)
    load(['list', [js, d()]], ['list', S], inv, warn=True)
    uni = ['union', [['int'], ['str']]]
    inu = ['union', [['str'], ['int']]]
    load(s('1'), uni, [['int'], ['str'], ['datetime'], ['union']])
    load(s('1'), inu, [['int'], ['str'], ['datetime'], ['union']])
    load(i(1), inu, [['int'], ['str'], ['datetime'], ['union']])
    load(['list', [s('1'), s('a')]], ['list', uni], [['int'], ['str'], ['datetime'], ['union'], ['list']])
    load(['list', [s('1'), s('a')]], ['list', inu], [['int'], ['str'], ['datetime'], ['union'], ['list']])
    load(s('2020-01-02T03:04:05Z'), NOT, [['str'], ['datetime']])
    load(s('2020-01-02T03:04:05Z'), ['str'], [['str'], ['datetime']])
    load(s('2020-01-02T03:04:05Z'), ['datetime'], [['str'], ['datetime']])
    load(d(a=s('2020-01-02T03:04:05Z'), b=i(1)), NOT, [['str'], ['datetime'], ['dict'], ['int']])
    load(i(1), ['float'], [['int'], ['float']])
    load(['bool', True], ['float'], [['bool'], ['int'], ['float']])
    load(i(1), ['str'], [['str'], ['datetime']])
    load(['bool', True], ['str'], [['str'], ['datetime']])
    load(['flt', 1, 1, 0], ['str'], [['str'], ['datetime']])
    load(s('red'), ['cls', 'Hue'], [['cls', 'Hue'], ['str'], ['enum'], ['int'], ['datetime']])
    load(d(x=i(1), items=js), ['cls', 'Duo'], [['cls', 'Duo'], ['tuple'], S, ['union'], ['dict']] + inv)
    load(NONE, ['int'], [['int'], ['nonetype']])
    load(NONE, ['union', [['int'], NT]], [['int'], ['nonetype'], ['union']])
    meta = lambda n: ['dict', [[s('classes'), ['dict', [[s('/'), s(n)]]]]]]
    box = ['obj', 'Box', [['x', small]]]
    inb = [['cls', 'Box'], ['dict'], ['object']] + inv
    dump(box, NOT, [['cls', 'Box'], S, ['object']] + B)
    dump(box, NOT, [['cls', 'Box'], S, ['object']] + B, verb=['class'])
    load(['dict', js[1] + [[s('-meta'), meta('Small')]]], NOT, inb)
    load(['dict', js[1] + [[s('-meta'), meta('small.Small')]]], NOT, inb)
    load(['dict', [[s('x'), js], [s('-meta'), meta('Box')]]], ['cls', 'Box'], inb)
    load(['list', [i(1), i(2)]], ['set', ['int']], [['set'], ['list'], ['int']])
    load(['list', [i(1), i(2)]], ['tuplen', [['int'], ['str']]], [['tuple'], ['list'], ['int'], ['str'], ['datetime']])
    return out


def c13(ck):
    w = small_world()
    w.add_plain('Box', [('x', ['cls', 'Small'], ['req'])])
    w.fn['s1'], w.fn['d1'], w.fn['v1'] = ['tag', 's1'], ['tag', 'd1'], ['raise', 'v1']
    m = menu()
    hists, r = cases(ck, 'Orders', w, tag='JWHIST', menu=m)
    hists = [h[0] for h in hists]
    wi = ck.add_world(w)

    def event(x):
        if x[0] == 'call':
            e = {k: v for k, v in m[x[1] - 1].items() if k != 'inv'}
            return json.loads(json.dumps(e))
        e = dict(op=x[1][0], f=1, Ts=[x[1][1]], fn=x[1][0][3] + '1', aslist=False)
        if x[1][0] != 'setval':
            e.update(hi=True, defaults=True)
        return e
    plain = [h for h in hists if all(x[0] == 'call' for x in h)]
    regs = [h for h in hists if any(x[0] != 'call' for x in h)]
    if not plain or not regs:
        raise RuntimeError('no histories')
    plain = r.sample(plain, min(len(plain), 20000 if ck.thorough else 1500))
    regs = r.sample(regs, min(len(regs), 12000 if ck.thorough else 900))
    # every two calls, one right after the other
    n = len(m)
    pairs = [(a, b) for a in range(1, n + 1) for b in range(1, n + 1)]
    r.shuffle(pairs)
    flat = [event(['call', x]) for p in pairs for x in p] + [event(x) for h in plain for x in h]
    for i in range(0, len(flat), 60):
        ck.session(wi, flat[i:i + 60])
    for h in regs:
        ck.session(wi, [event(x) for x in h], fresh=True)


def c22(ck):
    histories(ck, 'warn', 5000 if ck.thorough else 900, [''])


ALL = {'C10': c10, 'C08': c08, 'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C09': c09, 'C20': c20,
       'C16': c16, 'C11': c11, 'C12': c12, 'C14': c14, 'C13': c13, 'C21': c21, 'C22': c22}
