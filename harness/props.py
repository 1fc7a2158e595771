"""The cases of every property."""
import copy
import json
import random

import jw
from gen import G
from jw import NOT, NT, NONE, World

KD = dict(strict=False, nulls=False, priv=False, props=False, cvars=False, attrs=[], kt='', verb=[],
          enumname='default', usec=False, store=False, fork=1, types=[], xtra=NONE, inferred=False,
          hints=[], getters=[], warn=False, tasks=1)


def K(**kw):
    return dict(KD, **kw)


def dump(v, T=NOT, **k):
    return dict(op='dump', v=v, T=T, k=K(**k))


def load(j, T=NOT, **k):
    return dict(op='load', j=j, T=T, k=K(**k))


def rt(v, T=NOT, T2=None, k2=None, text=False, strong=False, **k):
    e = dict(op='rt', v=v, T=T, k=K(**k), text=text, strong=strong)
    if T2 is not None:
        e['T2'] = T2
    if k2 is not None:
        e['k2'] = k2
    return e


def U(*ms):
    """The Union of the members, as Python has it."""
    flat = []
    for m in ms:
        for x in (m[1] if m[0] == 'union' else [m]):
            if x not in flat:
                flat.append(x)
    return flat[0] if len(flat) == 1 else ['union', flat]


def sizes(ck, quick, thorough):
    return thorough if ck.thorough else quick


def chunks(ck, wi, evs, n=40, pre=(), **kw):
    for i in range(0, len(evs), n):
        ck.session(wi, list(copy.deepcopy(pre)) + evs[i:i + n], **kw)


def typed_dict(g, depth=3):
    """A dict with str keys of which the values are of different types, and what to dump them as (types=...)."""
    r = g.r
    keys = r.sample(['name', 'count', 'colour', 'child', 'items', 'level', 'total_sum', 'a'], r.randint(1, 4))
    Ts = [g.type(depth - 1) for _ in keys]
    v = ['dict', [[['str', a], g.value(T, depth - 1)] for a, T in zip(keys, Ts)]]
    types = [[a, T if g.chance(.9) else g.type(1)] for a, T in zip(keys, Ts) if g.chance(.75)]
    r.shuffle(types)
    if g.chance(.2):
        types.append(['unused', g.type(1)])
    k = r.random()
    if k < .15:
        v = ['list', [v, copy.deepcopy(v)]]
    elif k < .25:
        v = ['dict', [[['str', 'outer'], v]]]
    return v, types


def c01(ck):
    nw, ne = sizes(ck, (40, 150), (300, 250))
    for w in range(nw):
        g = G('%s-%s' % (ck.seed, w), poly=True, props=True, cvars=True, privs=True, bodyattrs=True, hashed=True,
              methods=True)
        wi = ck.add_world(g.world('w%d' % w))
        evs = []
        for _ in range(ne):
            T = g.type(3)
            v = g.value(T, 3)
            k = {}
            if g.chance(.08):
                v, k['types'] = typed_dict(g)
                T = NOT
            evs.append(dump(v, T if g.chance(.5) else NOT, **k))
            evs[-1]['subs'] = g.chance(.1)      # values of the user's own subclasses of str, int, ...
        chunks(ck, wi, evs)


def c02(ck):
    nw, ne = sizes(ck, (40, 150), (300, 250))
    for w in range(nw):
        g = G('%s-%s' % (ck.seed, w), bodyattrs=True)
        wi = ck.add_world(g.world('w%d' % w))
        evs = []
        for _ in range(ne):
            T = g.type(3)
            v = g.value(T, 3)
            evs.append(rt(v, T if g.chance(.5) else NOT, T2=T, text=g.chance(.5)))
        chunks(ck, wi, evs)


def c03(ck):
    nw, ne = sizes(ck, (40, 150), (300, 250))
    for w in range(nw):
        g = G('%s-%s' % (ck.seed, w))
        wi = ck.add_world(g.world('w%d' % w))
        evs = []
        for _ in range(ne):
            T = g.type(3)
            k = g.r.random()
            j = g.anyjson(2) if k < .1 else g.json_for(T, 3)
            if .1 < k < .6:
                j = g.mutate(j)
            if g.chance(.1):
                T = NOT
            evs.append(load(j, T))
        chunks(ck, wi, evs)


def c04(ck):
    nw, ne = sizes(ck, (40, 150), (300, 250))
    for w in range(nw):
        g = G('%s-%s' % (ck.seed, w), poly=True, bodyattrs=w % 2, natural=1, inherit=.6, nounion=True,
              zero=False, hidden=.3 * (w % 3 == 0), privs=w % 5 == 0, objs=.3,
              kinds=['plain', 'plain', 'data', 'attrs', 'jsonser', 'nt'])
        wi = ck.add_world(g.world('w%d' % w))
        evs = []
        cl = [n for n in g.classes() if g.w.c[n]['k'] not in ('enum', 'nt')]
        for _ in range(ne):
            verb = g.r.choice([['class'], ['class', 'time']])
            form = g.r.choice(['', '', 'bool'])
            text = g.chance(.5)
            if g.chance(.2):      # containers of objects
                vs = [g.instance(g.r.choice(cl), 2) for _ in range(g.r.randint(1, 3))]
                if g.chance(.5):
                    v, T2 = ['list', vs], g.r.choice([NOT, ['list', ['object']], ['list', ['any']]][:2])
                else:
                    v, T2 = ['dict', [[['str', 'k%d' % i], x] for i, x in enumerate(vs)]], \
                        g.r.choice([NOT, ['dict', ['str'], ['object']]])
                evs.append(rt(v, NOT, T2=T2, text=text, verb=verb, verbform=form, strong=True))
                continue
            n = g.r.choice(cl)
            v = g.instance(n, 3)
            n = v[1]
            T2 = g.r.choice([NOT, NOT, ['object'], ['cls', n]])
            evs.append(rt(v, NOT, T2=T2, text=text, verb=verb, verbform=form, strong=True))
        hidden = [dict(op='announce', T=['cls', n], name='') for n, c in g.w.c.items() if not c['imp']]
        chunks(ck, wi, evs, n=60, fresh=bool(hidden), pre=hidden)


def c05(ck):
    nw, ne = sizes(ck, (40, 150), (300, 250))
    for w in range(nw):
        g = G('%s-%s' % (ck.seed, w), poly=True, bodyattrs=True, inherit=.5, hidden=.25, fdepth=2, emptytup=False,
              kinds=['plain', 'plain', 'data', 'attrs', 'jsonser', 'nt'])
        wi = ck.add_world(g.world('w%d' % w))
        r = g.r
        cl = [n for n in g.classes() if g.w.c[n]['k'] not in ('enum', 'nt')]
        q = lambda n: g.w.c[n]['mod'] + '.' + n
        pre, names = [], [q(n) for n in cl if g.w.c[n]['imp']]
        plain = r.sample(['Text', 'Pattern', 'Type', 'deque', 'datetime', 'Generic', 'UUID', 'A', 'Decimal', 'jsons'], 10)
        spoken = {}
        for n, c in g.w.c.items():
            if not c['imp'] and g.chance(.6):
                nm = r.choice(['', 'my.' + n, 'short' + n, plain.pop()])
                pre.append(dict(op='announce', T=['cls', n], name=nm))
                names.append(nm or q(n))
                spoken[nm] = n
            elif not c['imp']:
                names.append(q(n))
            elif g.chance(.2):
                pre.append(dict(op='announce', T=['cls', n], name='also.' + n))
                names.append('also.' + n)

        def name():
            k = g.r.random()
            if k < .7:
                return r.choice(names)
            if k < .85:
                return r.choice(['datetime.datetime', 'int', 'str', 'dict', 'list', 'object', 'NoneType', 'float',
                                 'uuid.UUID', 'datetime.date', 'typing.List[int]', 'typing.Dict[str, int]'])
            return r.choice(['no.such.Thing', 'Unknown', '', 'a.b', 'w%d.Missing' % w, '.', 'typing.Nope', 'x[y]'])

        def cls_of(nm):
            if spoken.get(nm) in cl:
                return spoken[nm]
            for n in cl:
                if nm in (q(n), 'my.' + n, 'short' + n, 'also.' + n):
                    return n
            return r.choice(cl)

        def obj(depth):
            """The JSON of an object with (maybe) a -meta."""
            nm = name()
            n = cls_of(nm) if g.chance(.8) else r.choice(cl)
            j = g.json_for(['cls', n], 2)
            if j[0] == 'dict' and depth > 0:
                for p in j[1]:
                    if p[1][0] == 'dict' and g.chance(.5):
                        p[1] = obj(depth - 1)
                    elif p[1][0] == 'list' and g.chance(.3):
                        p[1] = ['list', [obj(depth - 1) for _ in range(r.randint(0, 2))]]
            if j[0] == 'dict' and g.chance(.75):
                cs = [[['str', '/'], ['str', nm]]] if g.chance(.9) else []
                for p in j[1]:
                    if g.chance(.15):
                        cs.append([['str', '/' + p[0][1]], ['str', name()]])
                m = [[['str', 'classes'], ['dict', cs]]]
                if g.chance(.2):
                    m.append([['str', 'dump_time'], ['str', '2020-01-01T00:00:00Z']])
                if g.chance(.03):
                    m = [[['str', 'classes'], g.anyjson(1)]]
                j[1].append([['str', '-meta'], ['dict', m]])
            return j

        def target():
            k = g.r.random()
            if k < .25:
                return NOT
            if k < .35:
                return ['object']
            if k < .6:
                return ['cls', r.choice(cl)]
            if k < .68:
                return ['name', name()]
            if k < .73:
                return r.choice([['dict'], ['any'], ['dict', ['str'], ['int']], ['str'], ['list']])
            if k < .8:
                return g.union(1)
            return g.type(1)
        evs = []
        for _ in range(ne):
            k = r.random()
            if k < .35:
                n = r.choice(cl)
                v = g.instance(n, 2)
                T2 = target()
                if T2[0] == 'cls' and g.chance(.5):
                    T2 = ['cls', v[1]]
                evs.append(rt(v, ['cls', n] if g.chance(.3) else NOT, T2=T2, text=g.chance(.3), verb=['class']))
            elif k < .75:
                T = target()
                if T == ['any']:
                    T = NOT
                evs.append(load(obj(2), T))
            elif k < .9:
                js, T = [obj(1) for _ in range(r.randint(1, 3))], target()
                if T[0] in ('name', 'any'):
                    T = NOT
                if g.chance(.5):
                    evs.append(load(['list', js], ['list', T] if T != NOT else NOT))
                else:
                    evs.append(load(['dict', [[['str', 'k%d' % x], j] for x, j in enumerate(js)]],
                                    ['dict', ['str'], T] if T != NOT else NOT))
            else:
                T = g.type(2)
                evs.append(load(g.json_for(T, 2), T if g.chance(.5) else NOT))
        loads = [e for e in evs if e['op'] == 'load']
        chunks(ck, wi, loads, n=60, fresh=True, pre=pre)
        chunks(ck, wi, [e for e in evs if e['op'] != 'load'], n=60, fresh=True, pre=pre)


def c06(ck):
    nw, ne = sizes(ck, (40, 150), (300, 250))
    for w in range(nw):
        g = G('%s-%s' % (ck.seed, w), poly=True, props=True, cvars=True, privs=w % 3 == 0, bodyattrs=True, inherit=.4,
              kwonly=.3, kinds=['plain', 'plain', 'data', 'attrs', 'jsonser', 'nt', 'slots'])
        wi = ck.add_world(g.world('w%d' % w))
        r = g.r
        cl = [n for n in g.classes() if g.w.c[n]['k'] != 'enum']
        evs = []

        def obj(n):
            j = g.json_for(['cls', n], 2)
            if j[0] == 'dict' and j[1]:
                for _ in range(r.choice([0, 0, 1, 1, 2])):
                    if j[1]:
                        del j[1][r.randrange(len(j[1]))]
                if g.chance(.15):
                    r.choice(j[1] or [[0, 0]])[1] = NONE
            return j
        for _ in range(ne):
            n = r.choice(cl)
            c = g.w.c[n]
            getters = []
            if g.chance(.45) and c['k'] != 'nt':
                cand = [(p[0], p[1]) for p in c['ps'] if p[3] in ('p', 'k')] + [(a, T) for a, T in c['an']]
                names = set()
                for _ in range(r.randint(1, 2)):
                    a, T = r.choice(cand) if cand and g.chance(.9) else ('gotten', ['int'])
                    if a not in names and not any(a == x[0] for x in c['cv'] + c['pr']):
                        names.add(a)
                        getters.append([a, g.value(T, 1) if g.chance(.8) else g.anyjson(1)])
            j, T = obj(n), ['cls', n]
            if g.chance(.2):
                j, T, getters = g.r.choice([
                    (['list', [j, obj(n)]], ['list', T], []), (j, U(T, NT), []),
                    (['dict', [[['str', 'k'], j]]], ['dict', ['str'], T], [])])
            if g.chance(.08):       # keys that are no parameters
                j = extra_keys(g, copy.deepcopy(j))
            evs.append(load(j, T, getters=getters))
        chunks(ck, wi, evs)


def c07(ck):
    nw, ne = sizes(ck, (40, 150), (300, 250))
    for w in range(nw):
        g = G('%s-%s' % (ck.seed, w), poly=True, bodyattrs=True, inherit=.4, bare=w % 4 == 0,
              kinds=['plain', 'plain', 'data', 'attrs', 'nt', 'slots'])
        g.world('w%d' % w)
        g.w.add_newtype('OptionalW%d' % w, g.union(2))
        g.w.add_newtype('SecondW%d' % w, ['newtype', 'OptionalW%d' % w])
        regs = []
        if w % 3 == 0:         # members that are refused by a validator or a custom function
            rg = Regs(g)
            regs = [rg.reg(g.r.choice('vvvsd')) for _ in range(g.r.randint(3, 6))]
        wi = ck.add_world(g.w)
        r = g.r
        evs = []
        pool = []
        for _ in range(12):
            u = g.union(2, nested=False)
            pool.append(u)
            v = list(u[1])
            r.shuffle(v)
            pool.append(['union', v])

        def utype(depth):
            k = r.random()
            if k < .5:
                return r.choice(pool)
            if k < .6:
                return ['newtype', r.choice(list(g.w.n))]
            if k < .7:
                return g.union(depth, nested=False)
            X = g.union(depth - 1, nested=True)
            return r.choice([['list', X], ['tuplee', X], ['tuplen', [X, g.type(1)]], ['dict', ['str'], X],
                             ['iter', X], ['deque', X], ['mapping', ['str'], X], ['seq', X], g.type(3)])
        for _ in range(ne):
            T = utype(2)
            k = r.random()
            if k < .35:
                v = g.value(T, 3) if g.chance(.7) else (NONE if g.chance(.3) else g.anyval(1))
                evs.append(dump(v, T, strict=g.chance(.3)))
            elif k < .5:
                evs.append(rt(g.value(T, 3), T, text=g.chance(.5)))
            else:
                j = g.json_for(T, 3)
                if k < .8:
                    j = g.mutate(j)
                elif k < .85:
                    j = g.anyjson(1)
                if g.chance(.04):
                    j, T = NONE, r.choice([NOT, ['any'], ['object'], NT, ['list'], g.type(1), g.type(2)])
                evs.append(load(j, T, strict=g.chance(.2)))
        if regs:
            for i in range(0, len(evs), 50):
                ck.session(wi, copy.deepcopy(regs) + evs[i:i + 50], fresh=True)
        else:
            chunks(ck, wi, evs)


def c08(ck):
    nw, ne = sizes(ck, (40, 150), (300, 250))
    for w in range(nw):
        g = G('%s-%s' % (ck.seed, w), poly=True, props=True, cvars=True, privs=True, bodyattrs=True, inherit=.5, methods=True,
              override=.35, mixin=.6, chain=.25,
              kinds=['plain', 'plain', 'plain', 'data', 'attrs', 'jsonser', 'nt', 'slots'])
        g.world('w%d' % w)
        r = g.r
        rg = Regs(g) if w % 4 == 3 else None
        cl = [n for n in g.classes() if g.w.c[n]['k'] != 'enum']
        names = sorted({p[4] for n in cl for p in g.w.c[n]['ps']} | {x[0] for n in cl for x in g.w.c[n]['pr']}
                       | {x[0] for n in cl for x in g.w.c[n]['cv']} - {''})
        evs = []
        for _ in range(ne):
            k = {o: True for o in ('nulls', 'priv', 'props', 'cvars') if g.chance(.3)}
            if g.chance(.35):
                k['attrs'] = r.sample(names, min(len(names), r.choice([1, 1, 2, 3])))
                k['attrsform'] = r.choice(['tuple', 'str', 'list', 'set', 'frozenset'])
            if g.chance(.2):
                k['verb'] = r.choice([['class'], ['time'], ['class', 'time']])
            if g.chance(.15):
                k['kt'] = r.choice(['upper', 'prefix', 'camel', 'lisp'])
            if g.chance(.3):
                k['strict'] = True
            if g.chance(.1):
                k['enumname'] = r.choice(['yes', 'no'])
            if g.chance(.5):
                n = r.choice(cl)
                v = g.instance(n, 3)
                T = r.choice([NOT, ['cls', v[1]], ['cls', n], ['cls', r.choice(g.w.c[v[1]]['mro'])]])
            else:
                T = g.type(3)
                v = g.value(T, 3)
                if g.chance(.5):
                    T = NOT
            evs.append(dump(v, T, **k))
        # what counts is what was dumped, also if it is up to a serializer
        pre = [rg.reg('s') for _ in range(r.randint(1, 4))] if rg else []
        for i, e in enumerate(pre):
            if i % 2 == 0:
                rg.w.fn[e['fn']] = ['const', NONE]
        wi = ck.add_world(g.w)
        chunks(ck, wi, evs, fresh=bool(pre), pre=pre)


WORDS9 = ['alpha', 'beta', 'long', 'name', 'value', 'the', 'http', 'count', 'xy', 'node']


def key9(r):
    ws = [r.choice(WORDS9) for _ in range(r.choice([1, 2, 2, 3, 4]))]
    form = r.choice(['snake', 'camel', 'pascal', 'lisp'])
    if form == 'snake':
        return '_'.join(ws)
    if form == 'lisp':
        return '-'.join(ws)
    s = ''.join(x.capitalize() for x in ws)
    return s if form == 'pascal' else s[0].lower() + s[1:]


def c09(ck):
    nw, ne = sizes(ck, (40, 100), (300, 150))
    for w in range(nw):
        strong = w % 2 == 0
        g = G('%s-%s' % (ck.seed, w), poly=not strong, props=not strong, cvars=not strong, privs=not strong,
              bodyattrs=True, inherit=.4, safekeys=strong, keys=not strong, natural=1 if strong else .6,
              zero=not strong, nounion=strong, untyped=not strong, bare=not strong,
              kinds=['plain', 'plain', 'data', 'attrs', 'jsonser', 'nt'])
        wi = ck.add_world(g.world('w%d' % w))
        r = g.r
        cl = [n for n in g.classes() if g.w.c[n]['k'] != 'enum']
        evs = []
        for _ in range(ne):
            k = r.random()
            kt, back = r.choice([('camel', 'snake'), ('pascal', 'snake'), ('lisp', 'snake'), ('snake', 'snake'),
                                 ('upper', 'lower'), ('prefix', 'unprefix')])
            if k < .12:
                evs.append(dict(op='kt', kt=r.choice(['camel', 'snake', 'pascal', 'lisp']), s=key9(r)))
                continue
            verb = r.choice([[], [], ['class'], ['class', 'time']])
            n = r.choice(cl)
            if g.chance(.7):
                v, T = g.instance(n, 3), ['cls', n]
            else:
                T = r.choice([['list', ['cls', n]], ['dict', ['str'], ['cls', n]], g.type(3)])
                v = g.value(T, 3)
            if not strong:
                back = r.choice([back, back, 'snake', 'camel'])
            if k < .4:
                evs.append(dump(v, T if g.chance(.3) else NOT, kt=kt, verb=verb, nulls=g.chance(.2)))
            elif strong:
                evs.append(rt(v, NOT, T2=T, k2=K(kt=back), text=g.chance(.5), kt=kt, verb=verb, strong=True))
            else:
                evs.append(rt(v, NOT, T2=T, k2=K(kt=back), text=g.chance(.5), kt=kt, verb=verb))
        chunks(ck, wi, evs)


def known_hash(v):
    """The hash of some keys that are no JSON keys, or None."""
    if v[0] == 'cplx' and v[1][3] == v[2][3] == 0 and v[2][2]:
        return hash(complex(v[1][1] * v[1][2], v[2][1] * v[2][2]))
    if v[0] == 'tuple' and all(x[0] == 'int' for x in v[1]):
        return hash(tuple(x[1] for x in v[1]))
    if v[0] == 'obj':
        return hash(tuple(None if x[1] == NONE else x[1][1] for x in v[2]))
    return None


def c10(ck):
    nw, ne = sizes(ck, (40, 120), (300, 200))
    for w in range(nw):
        g = G('%s-%s' % (ck.seed, w), bodyattrs=True, inherit=.3, nounion=w % 3 == 0, bare=w % 3 == 1, natural=.7,
              untyped=w % 3 == 1, hashed=True, zero=False, kinds=['plain', 'data', 'data', 'attrs', 'nt'])
        wi = ck.add_world(g.world('w%d' % w))
        g.w.add_nt('KeyW%d' % w, [('colour', ['int'], ['req']), ('name', ['str'], ['req'])])
        g.w.add_data('FrozenW%d' % w, [('count', ['int'], ['req']), ('level', ['union', [['str'], NT]], ['val', NONE])],
                     [], 'data', frozen=True)
        ck.worlds[wi] = {'mod': g.w.mod, 'rec': g.w.record(), 'src': g.w.source()}
        r = g.r
        en = [['cls', n] for n in g.classes(['enum'])]
        plainK = [['str'], ['int'], ['float'], ['bool'], ['date'], ['datetime'], ['uuid'], ['decimal'], ['path'],
                  ['time'], ['timedelta']] + en
        hashK = [['tuplen', [['int'], ['str']]], ['tuplee', ['int']], ['tuplee', ['date']], ['complex'], ['timezone'],
                 ['tuplen', [['tuplee', ['int']], ['str']]], ['cls', 'KeyW%d' % w], ['cls', 'FrozenW%d' % w],
                 ['frozenset', ['int']]]

        def key(T):
            k = r.random()
            if T == ['tuplee', ['int']] and k < .7:   # equal hashes: hash(-1) = hash(-2)
                return ['tuple', [['int', r.choice([-1, -2, -1, -2, 0])] for _ in range(r.choice([1, 2, 3]))]]
            if T == ['complex'] and k < .7:
                return ['cplx', ['flt', r.choice([1, -1]), r.choice([1, 2]), 0],
                        ['flt', 1, 0, 0] if k < .5 else ['flt', -1, r.choice([1, 2]), 0]]
            if T == ['tuplen', [['int'], ['str']]] and k < .5:
                return ['tuple', [['int', r.choice([-1, -2])], ['str', r.choice(['a', 'b'])]]]
            if T == ['cls', 'FrozenW%d' % w]:
                return ['obj', T[1], [['count', ['int', r.choice([-1, -2, 3])]],
                                      ['level', r.choice([NONE, ['str', 'a']])]]]
            return g.value(T, 2)

        def dct(K, V, n=None):
            n = r.choice([0, 1, 2, 3, 4, 6]) if n is None else n
            ks = g.uniq([key(K) for _ in range(n)])
            return ['dict', [[k, V()] for k in ks]]

        def nested(depth):
            K = r.choice(hashK) if g.chance(.7) else r.choice(plainK)
            if depth > 0 and g.chance(.5):
                T, f = nested(depth - 1)
            else:
                T = g.type(1)
                f = lambda: g.value(T, 2)
            if g.chance(.2):
                T, f0 = ['list', T], f
                f = lambda: ['list', [f0() for _ in range(r.randint(0, 2))]]
            m = r.choice(['dict', 'dict', 'dict', 'mapping', 'defaultdict', 'odict'])
            tag = {'defaultdict': 'ddict', 'odict': 'odict'}.get(m, 'dict')
            return [m, K, T], lambda: [tag, dct(K, f)[1]]
        evs = []
        for _ in range(ne):
            T, f = nested(r.choice([0, 1, 1, 2]))
            v = f()
            k = r.random()
            if k < .2:      # keys of several types in one dict
                ks = []
                for K in r.sample(hashK + plainK[:8], r.randint(2, 5)):
                    ks += [key(K) for _ in range(r.randint(1, 2))]
                hs = [h for h in map(known_hash, ks) if h]
                if hs and g.chance(.7):     # other keys that equal the hash of a key
                    h = r.choice(hs)
                    for d in r.sample([0, 0, 1, -1], r.choice([1, 1, 2])):
                        x = ['int', h + d] if abs(h + d) < 2 ** 31 else ['bigint', str(h + d)]
                        if x not in ks:
                            ks.insert(r.randint(0, len(ks)), x)
                evs.append(dump(['dict', [[x, g.natural(1)] for x in g.uniq(ks)]]))
                evs[-1]['subs'] = g.chance(.2)
            elif k < .35:
                evs.append(dump(v, T if g.chance(.5) else NOT, nulls=g.chance(.2), kt=r.choice(['', '', 'prefix', 'camel']),
                                strict=g.chance(.3)))
            elif k < .45:
                evs.append(rt(v, T if g.chance(.5) else NOT, T2=r.choice([['dict'], NOT, ['dict', ['str'], ['int']]])))
            elif k < .55:
                T2 = g.type(3)
                evs.append(rt(g.value(T2, 3), NOT, T2=T2, text=g.chance(.5)))
            else:
                evs.append(rt(v, T if g.chance(.5) else NOT, T2=T, text=g.chance(.5), strict=g.chance(.1)))
        chunks(ck, wi, evs)


class Regs:
    """Random custom (de)serializers and validators and their registrations."""
    SC = [['int'], ['str'], ['float'], ['bool'], ['datetime'], ['date'], ['uuid'], ['decimal'], ['timedelta'],
          ['list'], ['dict'], ['tuple'], ['set']]

    def __init__(self, g):
        self.g, self.w, self.r = g, g.w, g.r
        self.n = 0
        self.cl = g.classes()
        self.supers = sorted({m for n in self.cl for m in g.w.c[n]['mro'][1:]})

    def target(self, scalars=True, high=True):
        r = self.r
        k = r.random()
        if k < .65 or not scalars:
            if self.supers and self.g.chance(.5):
                return ['cls', r.choice(self.supers)]
            return ['cls', r.choice(self.cl)]
        if k < .72 and self.w.n and high:
            return ['newtype', r.choice(list(self.w.n))]
        return r.choice(self.SC if self.g.chance(.7) else [['float'], ['timedelta'], ['datetime']])

    def fn(self, kind, T, b=None):
        g, r = self.g, self.r
        self.n += 1
        name = '%s%d' % (kind, self.n)
        if b is None:
            k = r.random()
            if kind == 's':
                b = (['const', ['set', [['int', 1], ['int', 2]]]] if k < .15 and g.on('nonjson', False) else
                     ['const', NONE if k < .05 else g.natural(1)] if k < .2 else ['str', 'custom %d' % self.n] if k < .3
                     else ['raise'] if k < .36 else ['tag', 't%d' % self.n])
                if T[0] == 'cls' and self.w.c[T[1]]['k'] not in ('enum', 'nt') and .36 <= k < .7:
                    b = ['super'] if k < .42 else b
                    at = [p[4] for p in self.w.c[T[1]]['ps'] if p[4]]
                    if k >= .5 and at:
                        b = ['dele', 't%d' % self.n, r.choice(at)]
            elif kind == 'd':
                b = (['const', g.natural(1)] if k < .2 else ['raise'] if k < .26 else ['tag', 't%d' % self.n])
                if T[0] == 'cls' and self.w.c[T[1]]['k'] not in ('enum', 'nt') and .26 <= k < .4:
                    b = ['super']
            else:
                b = (['true'] if k < .3 else ['false'] if k < .37 else ['noneret'] if k < .42
                     else ['raise', 'invalid %d' % self.n] if k < .5 else ['raise0'] if k < .53 else ['tag', 'obj'])
                if T in (['int'], ['float']):
                    b = ['min', r.choice([-100, 0, 10])]
                elif T[0] == 'cls' and k > .6:
                    c = self.w.c[T[1]]
                    b = ['inst', T[1]] if c['k'] != 'newtype' else b
                    nums = [p for p in c['ps'] if p[1] in (['int'],) and p[4]]
                    if nums and c['k'] != 'enum':
                        b = ['attrmin', r.choice(nums)[4], r.choice([-50, 0, 5])]
                elif T[0] == 'cls':
                    pass
                elif k > .53:
                    b = ['tag', {'datetime': 'dt', 'timedelta': 'td', 'decimal': 'dec', 'newtype': 'int'}.get(T[0], T[0])]
        self.w.fn[name] = b
        return name

    def reg(self, kind, f=1, via=True, nf=False):
        """A registration event."""
        g, r = self.g, self.r
        hi = kind == 'v' or g.chance(.7)
        Ts = [self.target(high=hi)]
        if g.chance(.25):
            for _ in range(r.randint(1, 2)):
                T = self.target(high=hi)
                if T not in Ts:
                    Ts.append(T)
        name = self.fn(kind, Ts[0] if len(Ts) == 1 else ['none'])
        e = dict(op={'s': 'setser', 'd': 'setdes', 'v': 'setval'}[kind], f=f, Ts=Ts, fn=name, aslist=g.chance(.2))
        if kind != 'v':
            e.update(hi=hi, defaults=g.chance(.5))
            if via and g.chance(.4) or nf:
                e['via'] = 'cls'
            if nf:
                e['nf'] = True
        return e


def which(kind, T, f=1):
    return dict(op='which', kind=kind, T=T, f=f)


def call(g, f=1, types=None, strict=False, weights=(.4, .4, .2), regs=None):
    """A random dump, load or round trip."""
    r = g.r
    T = (types or (lambda: g.type(3)))()
    k = r.random()
    o = dict(fork=f)
    if g.chance(.3):
        o['xtra'] = g.scalar(r.choice([['int'], ['str'], ['bool']]))
    if strict and g.chance(.3):
        o['strict'] = True
    if k < weights[0]:
        v = g.value(T, 3)
        if g.chance(.15):
            o['nulls'] = True
        return dump(v, T if g.chance(.5) else NOT, **o)
    if k < weights[0] + weights[1]:
        return load(g.json_for(T, 3), T if g.chance(.9) else NOT, **o)
    return rt(g.value(T, 3), T if g.chance(.5) else NOT, T2=T, text=g.chance(.3), **o)


def c11(ck):
    nw, ns, ne = sizes(ck, (24, 8, 30), (150, 20, 60))
    for w in range(nw):
        g = G('%s-%s' % (ck.seed, w), poly=True, bodyattrs=True, inherit=.6, newtype=True, mixin=.5,
              kinds=['plain', 'plain', 'data', 'attrs', 'jsonser', 'nt'])
        g.world('w%d' % w)
        rg = Regs(g)
        r = g.r
        sess = []
        for _ in range(ns):
            evs = []
            for _ in range(r.randint(1, 3)):
                evs.append(rg.reg(r.choice('sd')))
            types = touched(g, rg, evs)
            while len(evs) < ne:
                k = r.random()
                if k < .12:
                    evs.append(rg.reg(r.choice('sd')))
                elif k < .25:
                    T = rg.target(high=False)     # (no NewTypes: their functions are wrapped)
                    evs.append(which(r.choice(['ser', 'des']), T))
                else:
                    evs.append(call(g, 1, types, strict=True))
            sess.append(evs)
        wi = ck.add_world(g.w)
        for evs in sess:
            ck.session(wi, evs, fresh=True)


CODES = ['datetime-without-tz', 'attribute-not-serialized', 'element-not-deserialized', 'hashed-keys-without-hint',
         'decorated-static', 'other-code']


def touched(g, rg, evs):
    """Types with what was registered in them."""
    r = g.r

    def types():
        Ts = [T for e in evs if 'Ts' in e for T in e['Ts'] if T not in (['tuple'], ['set'])]
        X = r.choice(Ts) if Ts and g.chance(.75) else g.type(2)
        if X[0] == 'cls' and g.chance(.5):
            X = ['cls', r.choice([m for m, x in g.w.c.items() if X[1] in x['mro']])]
        if X in (['float'], ['timedelta']) and g.chance(.3):      # that are inside others
            X = ['complex'] if X == ['float'] else ['timezone']
        k = r.random()
        if k < .4:
            return X
        return r.choice([['list', X], ['tuplee', X], ['tuplen', [X, ['int']]], ['dict', ['str'], X],
                         U(X, NT), ['deque', X], ['iter', X], g.type(3),
                         ['cls', r.choice(rg.cl)]])
    return types


def c12(ck):
    nw, ns, ne = sizes(ck, (24, 8, 36), (150, 20, 70))
    for w in range(nw):
        g = G('%s-%s' % (ck.seed, w), poly=True, bodyattrs=True, inherit=.5, newtype=True, naive=.5,
              kinds=['plain', 'plain', 'data', 'attrs', 'jsonser', 'nt'])
        g.world('w%d' % w)
        rg = Regs(g)
        r = g.r
        sess = []
        for _ in range(ns):
            evs, nf, cf = [], 1, {1}      # cf: the forks that are classes with methods

            def some_reg():
                nonlocal nf
                f = r.randint(1, nf)
                k = r.random()
                if k < .55:
                    e = rg.reg(r.choice('sd'), f, nf=f in cf and g.chance(.12))
                    if e.get('nf'):
                        nf += 1
                        cf.add(nf)
                    return e
                if k < .75:
                    return rg.reg('v', f)
                if k < .85:
                    return dict(op='suppress', f=f, val=g.chance(.6))
                return dict(op='suppresscode', f=f, code=r.choice(CODES))
            for _ in range(r.randint(0, 2)):
                evs.append(some_reg())
            types = touched(g, rg, evs)
            while len(evs) < ne:
                k = r.random()
                if k < .1 and nf < 6:
                    e = dict(op='fork', f=r.randint(1, nf), via=r.choice(['', 'cls']))
                    evs.append(e)
                    nf += 1
                    if e['f'] in cf - {1} or e['f'] == 1 and e['via']:
                        cf.add(nf)
                elif k < .3:
                    evs.append(some_reg())
                elif k < .4:
                    kind = r.choice(['ser', 'des', 'val'])
                    evs.append(which(kind, rg.target(high=False), r.randint(1, nf)))
                else:
                    e = call(g, r.randint(1, nf), types)
                    evs.append(e)
                    if nf > 1 and g.chance(.5):     # the same for another fork
                        e2 = copy.deepcopy(e)
                        e2['k']['fork'] = r.randint(1, nf)
                        evs.append(e2)
            sess.append(evs)
        wi = ck.add_world(g.w)
        for evs in sess:
            ck.session(wi, evs, fresh=True)


def c13(ck):
    nw, ns, ne = sizes(ck, (30, 6, 16), (200, 15, 24))
    for w in range(nw):
        g = G('%s-%s' % (ck.seed, w), poly=True, bodyattrs=True, inherit=.5, newtype=True, naive=.2, props=w % 3 == 0,
              cvars=w % 3 == 1, privs=w % 4 == 0, hashed=w % 2 == 0,
              kinds=['plain', 'plain', 'data', 'attrs', 'jsonser', 'nt', 'slots'])
        g.world('w%d' % w)
        rg = Regs(g)
        r = g.r
        sess = []
        pool = []
        for _ in range(6):       # equal Unions with the members in several orders
            u = g.union(1, nested=False)
            v = list(u[1])
            r.shuffle(v)
            pool += [u, ['union', v]]
        for si in range(ns):
            evs, nf, since = [], 1, 0
            regs = si % 3 != 0       # sessions without any registration, too

            def acall(types):
                k = r.random()
                if k < .2:
                    types = lambda: r.choice(pool)
                f = r.randint(1, nf)
                if k > .94:              # names that earlier calls may have made known
                    n = r.choice([n for n in rg.cl if g.w.c[n]['k'] not in ('enum',)])
                    j = g.json_for(['cls', n], 2)
                    if j[0] == 'dict':
                        nm = r.choice([n, n, '%s.%s' % (g.w.mod, n), 'my.' + n])
                        j[1].append([['str', '-meta'], ['dict', [[['str', 'classes'],
                                                                  ['dict', [[['str', '/'], ['str', nm]]]]]]]])
                        return dict(load(j, NOT, fork=f), watch=True)
                    k = .9
                if k < .45:
                    T = types()
                    v = g.value(T, 3)
                    o = {x: True for x in ('strict', 'nulls', 'priv', 'props', 'cvars', 'usec') if g.chance(.15)}
                    if g.chance(.2):
                        o['kt'] = r.choice(['camel', 'lisp', 'upper', 'prefix'])
                    if g.chance(.15):
                        o['verb'] = r.choice([['class'], ['time'], ['class', 'time']])
                    if g.chance(.1):
                        o['attrs'] = [r.choice(['name', 'count', 'colour', 'child', 'items', 'level'])]
                    if g.chance(.1):
                        o['enumname'] = r.choice(['yes', 'no'])
                    if g.chance(.15):
                        v = g.anyval(2)
                    e = dump(v, T if g.chance(.5) else NOT, fork=f, **o)
                elif k < .8:
                    T = types()
                    j = g.json_for(T, 3)
                    if g.chance(.4):
                        j = g.mutate(j)
                    e = load(j, T if g.chance(.9) else NOT, fork=f, strict=g.chance(.2), warn=g.chance(.1))
                else:
                    T = types()
                    e = rt(g.value(T, 3), T if g.chance(.5) else NOT, T2=T, text=g.chance(.5), fork=f,
                           verb=r.choice([[], [], ['class']]))
                e['watch'] = True
                if not regs and g.chance(.3):
                    e['warm'] = True
                return e
            types = touched(g, rg, evs)
            while len(evs) < ne:
                k = r.random()
                if regs and k < .12:
                    q = r.random()
                    if q < .5:
                        evs.append(rg.reg(r.choice('sd'), r.randint(1, nf)))
                    elif q < .65:
                        evs.append(rg.reg('v', r.randint(1, nf)))
                    elif q < .8 and nf < 4:
                        evs.append(dict(op='fork', f=r.randint(1, nf)))
                        nf += 1
                    elif q < .9:
                        evs.append(dict(op='suppresscode', f=r.randint(1, nf), code=r.choice(CODES)))
                    else:
                        n = r.choice([n for n in rg.cl if g.w.c[n]['k'] not in ('enum',)])
                        evs.append(dict(op='announce', T=['cls', n], name=r.choice(['', 'my.' + n])))
                    old = [e for e in evs if 'k' in e]
                    since = len(evs)
                    types = touched(g, rg, evs)
                    for e in r.sample(old, min(len(old), 3)):    # the old calls once more
                        e = copy.deepcopy(e)
                        e.pop('sameas', None)
                        evs.append(e)
                elif k < .45 and len(evs) > since:
                    x = r.randrange(since, len(evs))
                    e = copy.deepcopy(evs[x])
                    e['sameas'] = x + 1
                    evs.append(e)
                else:
                    e = acall(types)
                    evs.append(e)
                    if g.chance(.4):
                        f = 'j' if e['op'] == 'load' else 'v'
                        t = dict(copy.deepcopy(e), **{f: g.twin(e[f])})
                        t.pop('sameas', None)
                        evs.append(t)
            sess.append(evs)
        sess.append([e for _ in range(20 if ck.thorough else 8) for e in mixups(g)])
        wi = ck.add_world(g.w)
        for evs in sess:
            ck.session(wi, evs, fresh=True)


def mixups(g):
    """Calls with values and types that are equal or that look the same, but that are not the same."""
    r = g.r
    n = r.choice([0, 1, 1, 2, 7])
    pool = [['int', n], ['flt', 1, n, 0], ['str', str(n)], ['str', '%d.0' % n]]
    if n < 2:
        pool += [['bool', bool(n)], ['str', str(bool(n))]] * 2
    js = list(pool)
    if g.chance(.3):
        js += [['str', '2020-01-01T00:00:00Z'], ['str', '2020-01-01'], ['str', '2020-01-01T01:00:00+01:00']]
    pool += [['dec', str(n)], ['dec', '%d.0' % n]]
    d = g.dt()
    if d[-1] in ('utc', 'fixed'):
        pool += [d, g.twin(d, 1)]
    T0 = r.choice([['str'], ['str'], ['int'], ['float'], ['bool'], ['decimal'], U(['str'], NT), U(['bool'], ['str']),
                   U(['int'], ['str']), U(['float'], ['str']), U(['float'], ['int'], ['bool'])])
    types = [T0, T0, T0, NOT, ['str'], ['object']]
    form = r.choice(['', '', 'list', 'dict', 'set'])
    out = []
    for _ in range(10):
        load_ = g.chance(.5)
        v, T = r.choice(js if load_ else pool), r.choice(types)
        if form == 'list':
            v, T = ['list', [v, r.choice(js if load_ else pool)]], (['list', T] if T != NOT else NOT)
        if form == 'dict':
            v, T = ['dict', [[['str', 'k'], v]]], (['dict', ['str'], T] if T != NOT else NOT)
        if form == 'set' and not load_:
            v, T = ['set', [v]], (['set', T] if T != NOT else NOT)
        e = load(v, T, strict=g.chance(.1)) if load_ else dump(v, T)
        e['watch'] = True
        out.append(e)
    return out


def c14(ck):
    nw, ns, ne = sizes(ck, (30, 8, 24), (200, 20, 40))
    for w in range(nw):
        g = G('%s-%s' % (ck.seed, w), poly=True, bodyattrs=True, inherit=.6, newtype=True, mixin=.5,
              kinds=['plain', 'plain', 'data', 'attrs', 'jsonser', 'nt', 'slots'])
        g.world('w%d' % w)
        g.w.add_newtype('SecondW%d' % w, ['newtype', list(g.w.n)[0]])
        g.w.add_newtype('CountW%d' % w, ['int'])
        rg = Regs(g)
        r = g.r
        sess = []
        for _ in range(ns):
            evs, nf = [], 1
            for _ in range(r.randint(1, 3)):
                evs.append(rg.reg('v'))
            types = touched(g, rg, evs)
            while len(evs) < ne:
                k = r.random()
                if k < .1:
                    evs.append(rg.reg('v', r.randint(1, nf)))
                elif k < .13:
                    evs.append(rg.reg('d', r.randint(1, nf)))
                elif k < .16 and nf < 3:
                    evs.append(dict(op='fork', f=r.randint(1, nf)))
                    nf += 1
                elif k < .24:
                    T = r.choice([T for e in evs if 'Ts' in e for T in e['Ts']])
                    if T[0] == 'cls' and g.chance(.5):
                        T = ['cls', r.choice([m for m, x in g.w.c.items() if T[1] in x['mro']])]
                    evs.append(dict(op='validate', v=g.value(T, 2), T=T, f=r.randint(1, nf)))
                elif k < .3:
                    evs.append(which('val', rg.target(high=False), r.randint(1, nf)))
                elif k < .36:
                    evs.append(call(g, r.randint(1, nf), types, weights=(0, 0, 1)))
                elif k < .42:      # self-describing data
                    n = r.choice([n for n in rg.cl if g.w.c[n]['k'] not in ('enum', 'nt')])
                    v = g.instance(n, 3)
                    evs.append(rt(v, NOT, T2=r.choice([NOT, ['object'], ['cls', n]]), verb=['class'],
                                  fork=r.randint(1, nf)))
                else:
                    T = types()
                    j = g.json_for(T, 3)
                    if g.chance(.15):
                        j = g.mutate(j)
                    evs.append(load(j, T if g.chance(.95) else NOT, fork=r.randint(1, nf), strict=g.chance(.15)))
            sess.append(evs)
        wi = ck.add_world(g.w)
        for evs in sess:
            ck.session(wi, evs, fresh=True)


def dtstring(g):
    """Text that is or resembles an RFC3339 date, time or datetime."""
    r = g.r
    num = lambda lo, hi, n: (str(r.randint(lo, hi)).zfill(n) if g.chance(.9) else
                             r.choice(['', '0', '1', '00', '99', 'ab', '60', '24', '13', '31', '-1', '012', '007']))
    d = '-'.join([num(1, 9999, 4), num(1, 12, 2), num(1, 31 if g.chance(.2) else 28, 2)])
    t = ':'.join([num(0, 23, 2), num(0, 59, 2), num(0, 59, 2)])
    if g.chance(.4):
        t += '.' + ''.join(r.choice('0123456789') for _ in range(r.choice([6, 3, 6, 1, 0, 7, 9, 2])))
    z = r.choice(['Z', 'Z', 'Z', '+', '-', '+', '', 'z'])
    if z in ('+', '-'):
        z += r.choice([num(0, 23, 2) + ':' + num(0, 59, 2)] * 4 + ['00:00', '24:00', '0530', '05', '5:30', '23:59', '00:60'])
    sep = r.choice(['T'] * 9 + ['t', ' ', ''])
    k = r.random()
    s = d + sep + t + z if k < .75 else d + (z if z == 'Z' and g.chance(.3) else '') if k < .85 else t + (
        z if z == 'Z' and g.chance(.3) else '')
    if g.chance(.12):
        i = r.randrange(len(s) + 1)
        s = s[:i] + r.choice(['', 'x', '-', ':', '0', '+', 'T', '.']) + s[i + r.choice([0, 1]):]
    return s


LOCALS = ['UTC', 'Europe/Amsterdam', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe', 'America/St_Johns',
          'Asia/Kathmandu', 'Europe/London', 'Africa/Abidjan', 'Pacific/Kiritimati']


def c16(ck):
    from gen import edge, offset_at
    nw, ne = sizes(ck, (40, 160), (300, 250))
    TS = [['datetime'], ['datetime'], ['datetime'], ['date'], ['time'], ['timedelta'], ['timezone'], ['zoneinfo']]
    for w in range(nw):
        g = G('%s-%s' % (ck.seed, w), zoned=.3, bodyattrs=True, inherit=.2, kinds=['plain', 'data', 'attrs', 'nt', 'slots'])
        g.world('w%d' % w, 3)
        r = g.r
        A = 'MomentW%d' % w
        g.w.add_data(A, [('start_at', ['datetime'], ['req']), ('items', ['list', ['date']], ['req']),
                         ('extra', ['dict', ['str'], ['timedelta']], ['req']),
                         ('level', ['union', [['time'], NT]], ['val', NONE])], [], 'data')
        wi = ck.add_world(g.w)
        evs = []

        def wrapped(T):
            k = r.random()
            if k < .5:
                return T
            return r.choice([['list', T], ['tuplee', T], ['tuplen', [T, ['int']]], ['dict', ['str'], T],
                             U(T, NT), ['cls', A], ['dict', ['date'], T], ['deque', T], ['iter', T],
                             ['dict', ['str'], ['list', T]]])
        for _ in range(ne):
            T = r.choice(TS)
            k = r.random()
            if k < .35:
                T = wrapped(T)
                v = g.value(T, 3)
                k2 = r.random()
                o = dict(usec=g.chance(.2))
                if k2 < .7:
                    evs.append(rt(v, T if g.chance(.5) else NOT, T2=T if g.chance(.8) else NOT, text=g.chance(.5), **o))
                else:
                    evs.append(dump(v, T if g.chance(.5) else NOT, **o))
            elif k < .55:      # naive datetimes, in several local times
                z = r.choice(LOCALS)
                f = [r.randint(1972, 2036), r.randint(1, 12), r.randint(1, 28)] + g.hms()
                if g.chance(.4):
                    f[:5] = edge(r, z)
                lo = offset_at(z, f)
                if lo is None:
                    continue
                v, T = ['dtn', f], ['datetime']
                q = r.random()
                if q < .15:
                    v, T = ['list', [v]], ['list', T]
                elif q < .3:
                    v, T = ['dict', [[['str', 'k'], v]]], ['dict', ['str'], T]
                elif q < .45:
                    x = g.value(['cls', A], 2)
                    x[2][0][1] = v
                    v, T = x, ['cls', A]
                if q < .15 or g.chance(.5):
                    e = dump(v, T if g.chance(.5) else NOT, usec=g.chance(.2))
                else:
                    e = rt(v, T if g.chance(.5) else NOT, T2=T)
                e.update(tz=z, lo=lo)
                evs.append(e)
            else:
                s = dtstring(g)
                T = r.choice([NOT, NOT, ['datetime'], ['datetime'], ['date'], ['time'], ['timedelta'], ['timezone'],
                              ['union', [['datetime'], ['str']]], ['union', [['date'], ['time'], ['str']]]])
                j = ['str', s]
                if T == ['timezone']:
                    j = g.mutate(g.json_for(T, 2))
                if T == ['timedelta']:
                    j = r.choice([g.flt(), g.int_(), ['str', '12'], ['str', '1.5'], NONE, ['bool', True], ['str', 'x']])
                if g.chance(.25):
                    j, T = r.choice([(['list', [j]], ['list', T] if T != NOT else T), (['list', [j, j]], NOT),
                                     (['dict', [[['str', 'k'], j]]], ['dict', ['str'], T] if T != NOT else T)])
                evs.append(load(j, T))
        for e in evs:
            e.setdefault('tz', 'UTC')
        chunks(ck, wi, evs)


def camel(s):
    ws = s.split('_')
    return ws[0] + ''.join(x[:1].upper() + x[1:] for x in ws[1:])


def restyle(j, f):
    """Apply f to all string keys in j, in place."""
    if j[0] == 'dict':
        for kv in j[1]:
            if kv[0][0] == 'str' and kv[0][1][:1] != '-' and kv[0][1].isascii():
                kv[0] = ['str', f(kv[0][1])]
            restyle(kv[1], f)
    elif j[0] == 'list':
        for x in j[1]:
            restyle(x, f)


def c17(ck):
    nw, ne = sizes(ck, (40, 110), (300, 200))
    for w in range(nw):
        shared = w % 3 == 0     # with parts that are not converted: only the modification counts
        g = G('%s-%s' % (ck.seed, w), poly=shared, props=shared, cvars=shared, privs=shared, bodyattrs=True, inherit=.4,
              hashed=True, bare=shared, untyped=shared, safekeys=w % 2 == 0,
              kinds=['plain', 'plain', 'data', 'attrs', 'jsonser', 'nt', 'slots'])
        wi = ck.add_world(g.world('w%d' % w))
        r = g.r
        cl = [n for n in g.classes() if g.w.c[n]['k'] != 'enum']
        cl_js = [n for n in g.classes() if g.is_jsonser(n)]
        evs = []
        for _ in range(ne):
            T = g.type(3)
            if g.chance(.4):
                n = r.choice(cl)
                T = r.choice([['cls', n], ['list', ['cls', n]], ['dict', ['str'], ['cls', n]], ['tuplee', ['cls', n]]])
            v = g.value(T, 3)
            k = r.random()
            do = {o: True for o in ('nulls', 'priv', 'props', 'cvars', 'usec', 'strict') if g.chance(.2)}
            if g.chance(.3):
                do['attrs'] = r.sample(['name', 'count', 'colour', 'child', 'items', 'level', 'total_sum'], r.choice([1, 2]))
                do['attrsform'] = r.choice(['list', 'set', 'tuple', 'str'])
            if g.chance(.3):
                do['verb'] = r.choice([['class'], ['time'], ['class', 'time']])
            if g.chance(.3):
                do['kt'] = r.choice(['camel', 'lisp', 'upper', 'prefix'])
            if k < .06:
                v, do['types'] = typed_dict(g)
                e = dump(v, NOT, **do)
                e['noshare'] = True
            elif k < .4:
                e = dump(v, T if g.chance(.5) else NOT, **do)
                e['noshare'] = True
            elif k < .7:
                j = g.json_for(T, 3)
                if g.chance(.4):
                    j = g.mutate(j)
                k2 = dict(strict=g.chance(.2), kt=r.choice(['', '', 'snake', 'lower']), warn=g.chance(.15))
                if g.chance(.3):
                    k2['kt'] = r.choice(['snake', 'lower', 'unprefix'])
                    restyle(j, {'snake': lambda s: camel(s) if s.isidentifier() and s.islower() else s, 'lower': str.upper, 'unprefix': 'p_{}'.format}[k2['kt']])
                if g.chance(.3) and T[0] == 'cls' and g.w.c[T[1]]['k'] != 'nt':
                    c = g.w.c[T[1]]
                    ps = [p for p in c['ps'] if p[3] in ('p', 'k')]
                    if ps and j[0] == 'dict':
                        p = r.choice(ps)
                        j = ['dict', [x for x in j[1] if x[0][1] != p[0]]]
                        k2['getters'] = [[p[0], g.value(p[1], 2)]]
                e = load(j, T if g.chance(.9) else NOT, **k2)
            else:
                verb = do.get('verb', [])
                e = rt(v, NOT, T2=r.choice([T, T, NOT]) if 'class' in verb else T,
                       k2=K(kt={'camel': 'snake', 'lisp': 'snake', 'upper': 'lower', 'prefix': 'unprefix'}.get(
                           do.get('kt', ''), '')), text=g.chance(.3), **do)
            if e['op'] != 'dump' and not shared and e.get('T2', e['T']) != NOT and not e['k'].get('getters'):
                e['noshare'] = True     # (remaining attributes, which are not converted, excepted by the spec)
            e['watch'] = True
            evs.append(e)
        chunks(ck, wi, evs, n=20)
        for _ in range(2):        # and the front ends
            evs = [dict(op='fork', f=1, via='')]
            while len(evs) < ne // 6:
                if g.chance(.7):
                    e = front_event(g, lambda: g.type(3), cl_js, {}, 2, False)
                else:
                    e = deco(g, lambda: g.type(2), r.choice([1, 2]))
                if e is not None:
                    evs.append(e)
            ck.session(wi, evs, fresh=True)


def extra_keys(g, j, n=1):
    """Add unexpected keys to random objects of the JSON j."""
    spots = []

    def walk(x):
        if x[0] == 'dict':
            spots.append(x)
            for _, b in x[1]:
                walk(b)
        elif x[0] == 'list':
            for y in x[1]:
                walk(y)
    walk(j)
    for _ in range(n):
        if spots:
            x = g.r.choice(spots)
            key = g.r.choice(['zzz_extra', 'bogus', 'Another', '_secret', 'unknown_attr', '-dashed', '-cls', 'a b', '', '/',
                              'x/y', '1', 'self', 'é', 'obj', 'cls'])
            if all(a != ['str', key] for a, _ in x[1]):
                x[1].insert(g.r.randrange(len(x[1]) + 1), [['str', key], g.anyjson(1)])
    return j


def c20(ck):
    nw, ne = sizes(ck, (40, 140), (300, 250))
    for w in range(nw):
        g = G('%s-%s' % (ck.seed, w), poly=True, bodyattrs=w % 2, privs=w % 3 == 0, inherit=.5, kwonly=.3, fdepth=2,
              kinds=['plain', 'plain', 'data', 'attrs', 'jsonser', 'nt', 'slots'])
        wi = ck.add_world(g.world('w%d' % w))
        r = g.r
        cl = [n for n in g.classes() if g.w.c[n]['k'] != 'enum']
        evs = []
        for _ in range(ne):
            n = r.choice(cl)
            T = ['cls', n]
            q = r.random()
            if q < .5:
                T = r.choice([['list', T], ['tuplee', T], ['tuplen', [['int'], T]], ['dict', ['str'], T],
                              U(T, NT), U(['int'], T, ['str']), ['deque', T], ['iter', T],
                              ['mapping', ['str'], T], ['dict', ['str'], ['list', T]], ['dict', ['int'], T],
                              U(['cls', r.choice(cl)], T)])
            k = r.random()
            if k < .25:
                v = g.value(T, 3)
                verb = r.choice([[], ['class'], ['class', 'time'], ['time']])
                kt = r.choice(['', '', '', 'prefix', 'camel'])
                evs.append(rt(v, NOT, T2=r.choice([T, T, NOT]) if 'class' in verb else T,
                              k2=K(strict=True, kt={'prefix': 'unprefix', 'camel': 'snake'}.get(kt, '')), verb=verb, kt=kt,
                              nulls=g.chance(.2), text=g.chance(.3)))
                continue
            j = g.json_for(T, 3)
            if g.chance(.7):
                j = extra_keys(g, j, r.choice([1, 1, 2]))
            if g.chance(.2):
                j = g.mutate(j)
            if k < .3 and q > .5:
                T = NOT
            e = load(j, T, strict=True)
            evs.append(e)
            if g.chance(.3):
                e2 = copy.deepcopy(e)
                e2['k']['strict'] = False
                evs.append(e2)
        chunks(ck, wi, evs)


def misfit(g, v):
    """Replace attributes of objects by values of another type."""
    r = g.r
    spots = []

    def walk(x):
        if x[0] == 'obj':
            for p in x[2]:
                spots.append(p)
                walk(p[1])
        elif x[0] in ('list', 'tuple', 'deque'):
            for y in x[1]:
                walk(y)
        elif x[0] in ('dict', 'ddict', 'odict'):
            for _, y in x[1]:
                walk(y)
    walk(v)
    for _ in range(r.choice([1, 1, 2])):
        if spots:
            p = r.choice(spots)
            p[1] = g.anyval(1) if g.chance(.6) else g.natural(1)
    return v


def c21(ck):
    nw, ns, ne = sizes(ck, (30, 5, 40), (200, 10, 70))
    for w in range(nw):
        g = G('%s-%s' % (ck.seed, w), poly=True, bodyattrs=True, inherit=.4, fdepth=2,
              kinds=['plain', 'plain', 'data', 'attrs', 'jsonser', 'nt', 'slots'])
        g.world('w%d' % w)
        r = g.r
        rg = Regs(g)
        cl = [n for n in g.classes() if g.w.c[n]['k'] not in ('enum', 'nt')]
        sess = []
        for si in range(ns):
            evs = []
            if si % 2:
                for _ in range(r.randint(1, 2)):
                    e = rg.reg(r.choice('sdv'), via=False)
                    if e['op'] != 'setval':
                        g.w.fn[e['fn']] = ['raise'] if g.chance(.6) else g.w.fn[e['fn']]
                    evs.append(e)
            types = touched(g, rg, evs)
            while len(evs) < ne:
                k = r.random()
                if k < .4:
                    n = r.choice(cl)
                    v = misfit(g, g.instance(n, 3))
                    T = r.choice([NOT, ['cls', v[1]], ['cls', n]])
                    if si % 2 and g.chance(.4):     # what a custom serializer gets
                        T2 = types()
                        v, T = g.value(T2, 2), r.choice([NOT, T2])
                    if g.chance(.3):
                        v, T = r.choice([(['list', [v, g.instance(n, 2)]], ['list', T]),
                                         (['dict', [[['str', 'k'], v]]], ['dict', ['str'], T]),
                                         (['tuple', [v]], ['tuplen', [T]])])
                        if g.chance(.5):
                            T = NOT
                    o = {x: True for x in ('nulls', 'strict') if g.chance(.15 if x == 'nulls' else .3)}
                    if g.chance(.1):
                        o['kt'] = 'prefix'
                    if g.chance(.1):
                        o['verb'] = ['class']
                    if T != NOT and T[0] != 'cls':
                        T = NOT if NOT in json_types(T) else T
                    evs.append(dump(v, T, **o))
                elif k < .7:
                    E = types() if g.chance(.5) else g.type(2)
                    if g.chance(.2):
                        E = ['list', E]
                    js = [g.json_for(E, 2) if g.chance(.6) else g.mutate(g.json_for(E, 2)) for _ in range(r.randint(1, 5))]
                    j, T = ['list', js], ['list', E]
                    q = r.random()
                    if q < .25:
                        j, T = r.choice([(['dict', [[['str', 'k'], j]]], ['dict', ['str'], T]),
                                         (['list', [['int', 1], j]], ['tuplen', [['int'], T]]),
                                         (j, U(T, NT))])
                    evs.append(load(j, T, warn=g.chance(.75)))
                else:
                    T = types()
                    j = g.json_for(T, 3)
                    for _ in range(r.choice([0, 1, 1, 2])):
                        j = g.mutate(j)
                    evs.append(load(j, T, strict=g.chance(.15), warn=g.chance(.1)))
            sess.append(evs)
        wi = ck.add_world(g.w)
        for evs in sess:
            ck.session(wi, evs, fresh=True)


def json_types(T):
    return [x for x in T if isinstance(x, list)] + [y for x in T if isinstance(x, list) for y in json_types(x)]


def c22(ck):
    nw, ns, ne = sizes(ck, (30, 8, 26), (200, 20, 40))
    for w in range(nw):
        g = G('%s-%s' % (ck.seed, w), poly=True, bodyattrs=True, inherit=.6, naive=.6, hashed=True, hashbody=.5, bodyp=.8,
              kinds=['plain', 'plain', 'data', 'attrs', 'jsonser', 'nt', 'slots'])
        g.world('w%d' % w)
        r = g.r
        cl = [n for n in g.classes() if g.w.c[n]['k'] not in ('enum', 'nt')]
        wi = ck.add_world(g.w)
        for _ in range(ns):
            evs, nf = [], 1
            while len(evs) < ne:
                k = r.random()
                f = r.randint(1, nf)
                if k < .1:
                    evs.append(dict(op='suppress', f=f, val=g.chance(.5)))
                elif k < .22:
                    evs.append(dict(op='suppresscode', f=f, code=r.choice(CODES)))
                elif k < .3 and nf < 5:
                    evs.append(dict(op='fork', f=f, via=r.choice(['', 'cls']) if f == 1 else ''))
                    nf += 1
                else:
                    q = r.random()
                    if q < .2:
                        v = r.choice([['dtn', g.ymd() + g.hms()], ['list', [['dtn', g.ymd() + g.hms()], g.dt()]]])
                        e = dump(v, NOT)
                    elif q < .4:
                        n = r.choice(cl)
                        e = dump(misfit(g, g.instance(n, 3)), ['cls', n] if g.chance(.3) else NOT, nulls=g.chance(.2))
                    elif q < .65:
                        E = g.type(2)
                        e = load(['list', [g.json_for(E, 2) if g.chance(.5) else g.mutate(g.json_for(E, 2))
                                           for _ in range(r.randint(1, 4))]], ['list', E], warn=True)
                    elif q < .8:
                        K_ = r.choice([['tuplen', [['int'], ['str']]], ['complex'], ['timezone'], ['tuplee', ['int']]])
                        T = ['dict', K_, g.type(1)]
                        v = g.value(T, 2)
                        e = rt(v, T if g.chance(.5) else NOT, T2=T) if g.chance(.5) else \
                            rt(v, NOT, T2=r.choice([NOT, ['dict'], ['dict', ['str'], ['any']]]))
                    elif q < .9:
                        n = r.choice(cl)
                        e = rt(g.instance(n, 3), ['cls', n] if g.chance(.3) else NOT, T2=['cls', n])
                    else:
                        e = call(g, f)
                    e['k']['fork'] = f
                    if 'k2' in e:
                        e['k2']['fork'] = f
                    evs.append(e)
                    if nf > 1 and g.chance(.3):
                        e = copy.deepcopy(e)
                        e['k']['fork'] = r.randint(1, nf)
                        evs.append(e)
            ck.session(wi, evs, fresh=True)


def schedules(ck, cfgs):
    """The schedules that TLC exports from MultiTask, by (elements, tasks)."""
    import tlc
    res = {}
    for c in cfgs:
        out = ck.model_check('MultiTask.tla', 'SCHED_%d_%d.cfg' % c)
        res[c] = [list(x) for x in sorted({tuple(p[3]) for p in tlc.prints(out, 'JWSCHED')})]
        if not res[c]:
            raise RuntimeError('no schedules')
    return res


def c15(ck):
    nw, ns, ne = sizes(ck, (24, 4, 24), (120, 8, 40))
    ck.model_check('MultiTask.tla', 'MC_MultiTask_big.cfg' if ck.thorough else 'MC_MultiTask.cfg')
    sch = schedules(ck, [(3, 2), (4, 2), (3, 3)] + ([(4, 3)] if ck.thorough else []))
    todo = [(c, s) for c in sorted(sch) for s in sch[c]]
    random.Random(ck.seed).shuffle(todo)
    if not ck.thorough:      # all of those for two tasks, and some of the others
        todo = [x for x in todo if x[0][1] == 2] + [x for x in todo if x[0][1] == 3][:400]
    for w in range(nw):
        g = G('%s-%s' % (ck.seed, w), poly=w % 2 == 0, bodyattrs=True, inherit=.3, hashed=True,
              kinds=['jsonser', 'plain', 'data', 'attrs', 'plain', 'nt'])
        g.world('w%d' % w)
        rg = Regs(g)
        r = g.r
        cl = [n for n in g.classes() if g.w.c[n]['k'] not in ('enum', 'nt')
              and any(p[2][0] == 'req' for p in g.w.c[n]['ps'] if p[3] == 'p')]
        g.w.add_data('CountedW%d' % w, [['ident', ['int'], ['req']], ['tags', ['List'], ['val', NONE]]], (), 'data')
        counted = ['cls', 'CountedW%d' % w]
        sess = []

        def elements(X, n, dir_, wrong=.15):
            out = []
            while len(out) < n:
                if dir_ == 'dump':
                    v = g.value(X, 2)
                    if X != counted and g.chance(wrong / 2):
                        v = misfit(g, v)
                else:
                    v = g.json_for(X, 2)
                    q = r.random()
                    if q < wrong:
                        v = r.choice([['int', r.randrange(10 ** 6)], ['dict', [[['str', 'bogus%d' % len(out)], NONE]]],
                                      ['str', 'x%d' % r.randrange(10 ** 6)], ['list', [['int', r.randrange(10 ** 6)]]]])
                    elif q < 2 * wrong:
                        v = g.mutate(v)
                if v not in out and v != NONE:
                    out.append(v)
            return out
        for si in range(ns):
            evs, nf = [], 1
            if g.chance(.4):
                evs.append(dict(op='fork', f=1, via=r.choice(['', 'cls'])))
                nf = 2
            X = ['cls', r.choice(cl)] if cl and g.chance(.5) else counted
            f0 = r.randint(1, nf)
            b = r.choice([['super'], ['super'], ['super'], None]) if X != counted else \
                r.choice([['super'], ['dele', 'd', ['int']], ['tag', 'd']])
            if b and b[0] == 'dele':
                b = ['super']
            name = rg.fn('d', X, b)
            evs.append(dict(op='setdes', f=f0, Ts=[X], fn=name, hi=True))
            bs = r.choice([['super'], ['super'], ['tag', 's']])
            evs.append(dict(op='setser', f=f0, Ts=[X], fn=rg.fn('s', X, bs), hi=True))
            if g.chance(.4):
                evs.append(rg.reg('v', f0))
            touched(g, rg, evs)

            def sub(X):
                """Would the custom functions of X run for every element?"""
                return all(X[1] not in c['mro'] or n == X[1] for n, c in g.w.c.items())
            def junkless(els):
                """(Something else than an object could reappear inside of others.)"""
                return all(x[0] in ('dict', 'obj') for x in els)
            while len(evs) < ne:
                dir_ = r.choice(['load', 'load', 'load', 'dump'])
                mode = r.choice(['gate'] * 5 + ['thread'] + (['process'] if w % 4 == 0 else []))
                tasks = r.choice([2, 2, 3, 3, 4, 5, 8, 13, 1, 0, -2])
                k = dict(fork=f0 if g.chance(.8) else r.randint(1, nf), tasks=tasks)
                if g.chance(.15):
                    k['strict'] = True
                if g.chance(.3) and dir_ == 'load':
                    k['warn'] = True
                if g.chance(.2):
                    k['kt'] = r.choice(['snake', 'lower'] if dir_ == 'load' else ['camel', 'lisp'])
                if g.chance(.2):
                    k['xtra'] = ['int', r.randint(1, 9)]
                n = r.choice([0, 1, 2, 3, 3, 4, 5, 6, 7])
                ids, full = [], -1
                q = r.random()
                if q < .7:
                    els = elements(X, n, dir_)
                    # (an element of another class could reappear inside of others)
                    ids = els if k['fork'] == f0 and X == counted and junkless(els) else []
                    T = r.choice([['list', X], ['list', X], ['tuplee', X], ['deque', X], ['iter', X], ['seq', X]])
                    j = ['list', els]
                    q2 = r.random()
                    if q2 < .15:
                        parts = [els[:n // 2], els[n // 2:]]
                        j, T = ['list', [['list', p] for p in parts]], ['list', ['list', X]]
                    elif q2 < .25:
                        j, T = ['dict', [[['str', 'k'], j]]], ['dict', ['str'], ['list', X]]
                    if dir_ == 'dump':
                        if q2 < .25 or T[0] in ('list', 'iter', 'seq'):
                            pass
                        else:
                            j = [{'tuplee': 'tuple'}.get(T[0], T[0]), els]
                        if g.chance(.5):
                            T = NOT
                        # (dumping a subclass instance may take another function)
                        if not sub(X) or k.get('strict'):
                            ids = []
                    if ids and not (q2 < .25 and k.get('warn')):
                        full = len(ids)
                else:
                    T = g.type(3)
                    if g.chance(.6):
                        T = r.choice([['list', T], ['tuplee', T]])
                    if dir_ == 'dump':
                        j = g.value(T, 3)
                        T = T if g.chance(.5) else NOT
                    else:
                        j = g.json_for(T, 3)
                        if g.chance(.3):
                            j = g.mutate(j)
                    if mode == 'process':
                        k['tasks'] = min(tasks, 3)
                e = dict(op='tasks', dir=dir_, T=T, k=K(**k), mode=mode, ids=ids, ncalls=full,
                         sched=[r.randint(0, min(max(tasks, 1), 8)) for _ in range(r.randint(0, 40))],
                         short=g.chance(.5), tsub=g.chance(.4))
                e['v' if dir_ == 'dump' else 'j'] = j
                evs.append(e)
            # replay behaviours of the specification
            for c, s in todo[w * ns + si::nw * ns]:
                dir_ = r.choice(['load', 'load', 'dump'])
                els = elements(counted, c[0], dir_, .2)
                e = dict(op='tasks', dir=dir_, T=['tuplee', counted] if dir_ == 'dump' else ['list', counted],
                         k=K(fork=f0, tasks=c[1], warn=g.chance(.3) and dir_ == 'load'), mode='gate', ids=[], ncalls=-1,
                         sched=s, short=False)
                if X == counted and junkless(els):
                    e['ids'] = els
                    e['ncalls'] = len(els)
                e['v' if dir_ == 'dump' else 'j'] = ['tuple' if dir_ == 'dump' else 'list', els]
                evs.append(e)
            sess.append(evs)
        wi = ck.add_world(g.w)
        for evs in sess:
            ck.session(wi, evs, fresh=True)


JDS = [{}, {}, {}, {'indent': 2}, {'sort_keys': True}, {'separators': [',', ':']}, {'ensure_ascii': False},
       {'allow_nan': False}, {'indent': 1, 'ensure_ascii': False}]
ENCS = ['utf-8', 'utf-8', 'utf-8', 'utf-16', 'latin-1', 'ascii', 'utf-32-le', 'cp1252']
UNSNAKE = {'camel': 'snake', 'lisp': 'snake', 'pascal': 'snake', 'upper': 'lower', 'prefix': 'unprefix'}


def c23(ck):
    nw, ns, nc = sizes(ck, (24, 5, 14), (120, 10, 24))
    ck.model_check('Calls.tla', 'MC_Calls_big.cfg' if ck.thorough else 'MC_Calls.cfg')
    todo = {}
    for c in ('C1', 'D2', 'E1'):       # (with a registration; 2 calls; 3 calls)
        out = ck.model_check('Calls.tla', 'SCHED_CALLS_%s.cfg' % c)
        todo[c] = [list(x) for x in sorted({tuple(p[3]) for p in __import__('tlc').prints(out, 'JWSCHED')})]
        if not todo[c]:
            raise RuntimeError('no schedules')
        random.Random('%s%s' % (ck.seed, c)).shuffle(todo[c])
    nr = 0
    for w in range(nw):
        g = G('%s-%s' % (ck.seed, w), poly=True, bodyattrs=True, inherit=.5, newtype=True, naive=.2, props=w % 2 == 0,
              cvars=w % 3 == 1, hashed=w % 2 == 0, rwprops=w % 4 == 0,
              kinds=['plain', 'plain', 'data', 'attrs', 'jsonser', 'plain', 'slots'])
        g.world('w%d' % w)
        rg = Regs(g)
        r = g.r
        cl = [n for n in g.classes() if g.w.c[n]['k'] not in ('enum', 'nt')]
        sess = []

        def nest(kind, T):
            k = K(**{o: True for o in ('strict', 'nulls', 'priv', 'usec') if g.chance(.2) and kind == 's'})
            k['kt'] = r.choice(['', '', 'camel', 'lisp'] if kind == 's' else ['', '', 'snake'])
            if g.chance(.3):
                k['verb'] = ['class'] if kind == 's' else []
            if g.chance(.2):
                k['xtra'] = ['int', r.randint(1, 99)]
            if kind == 's':
                at = [p[4] for p in g.w.c[T[1]]['ps'] if p[4]]
                return rg.fn('s', T, ['nest', 'n%d' % rg.n, r.choice(at), k]) if at else rg.fn('s', T, ['super'])
            return rg.fn('d', T, ['nest', 'n%d' % rg.n, r.choice([['any'], ['dict', ['str'], ['any']], ['dict'],
                                                                    ['dict', ['str'], ['cls', r.choice(cl)]]]), k])
        for si in range(ns):
            evs, nf = [], 1
            for _ in range(r.randint(0, 2)):
                evs.append(dict(op='fork', f=r.randint(1, nf)))
                nf += 1
            for _ in range(r.randint(1, 4)):
                q = r.random()
                f = r.randint(1, nf)
                if q < .25:
                    evs.append(rg.reg(r.choice('sdv'), f))
                else:
                    T = ['cls', r.choice(cl)]
                    kind = r.choice('sd')
                    name = nest(kind, T) if g.chance(.5) else rg.fn(kind, T, ['super'])
                    evs.append(dict(op={'s': 'setser', 'd': 'setdes'}[kind], f=f, Ts=[T], fn=name, hi=True))
            if g.chance(.2):
                evs.append(dict(op='suppresscode', f=r.randint(1, nf), code=r.choice(CODES)))
            evs.append(dict(op='fork', f=r.randint(1, nf)))    # the one that is changed meanwhile
            side = nf + 1
            cnt = nf + 1
            types = touched(g, rg, evs)

            def acall():
                f = r.randint(1, nf)
                T = types()
                o = dict(fork=f)
                if g.chance(.2):
                    o['xtra'] = ['int', r.randint(1, 99)]
                if g.chance(.2):
                    o['strict'] = True
                q = r.random()
                if q < .4:
                    for x in ('nulls', 'priv', 'props', 'cvars', 'usec'):
                        if g.chance(.12):
                            o[x] = True
                    if g.chance(.35):
                        o['kt'] = r.choice(['camel', 'lisp', 'upper', 'prefix'])
                    if g.chance(.2):
                        o['verb'] = r.choice([['class'], ['time'], ['class', 'time']])
                    if g.chance(.1):
                        o['attrs'] = [r.choice(['name', 'count', 'colour', 'child', 'items', 'level'])]
                    return dump(g.value(T, 3), T if g.chance(.5) else NOT, **o)
                if q < .8:
                    j = g.json_for(T, 3)
                    if g.chance(.3):
                        j = g.mutate(j)
                    if g.chance(.25):
                        o['kt'] = r.choice(['snake', 'lower', 'unprefix'])
                    if g.chance(.2):
                        o['warn'] = True
                    if T[0] == 'cls' and g.chance(.3):
                        ps = [p for p in g.w.c[T[1]]['ps'] if p[3] == 'p' and p[4] == p[0]]
                        if ps:
                            p = r.choice(ps)
                            o['getters'] = [[p[0], g.value(p[1], 1)]]
                            if j[0] == 'dict':
                                j = ['dict', [x for x in j[1] if x[0] != ['str', p[0]]]]
                    return load(j, T if g.chance(.9) else NOT, **o)
                o['verb'] = r.choice([[], ['class']])
                o.pop('strict', None)
                return rt(g.value(T, 3), NOT if o['verb'] else T if g.chance(.5) else NOT, T2=T, **o)
            for ci in range(nc):
                kind = r.choice(['C1', 'D2', 'E1', 'r', 'r', 'r'])
                nt = {'C1': 2, 'D2': 2, 'E1': 3}.get(kind) or r.choice([2, 2, 3, 4])
                thr = [[acall() for _ in range(r.choice([1, 1, 2, 3]))] for _ in range(nt)]
                if g.chance(.15):      # the same calls in all threads
                    thr = [copy.deepcopy(thr[0]) for _ in range(nt)]
                regs = []
                if kind == 'C1' or g.chance(.2):
                    for _ in range(r.randint(1, 3)):
                        q = r.random()
                        if q < .75:
                            x = rg.reg(r.choice('sdv'), side)
                        elif q < .9:
                            x = dict(op=r.choice(['suppress']), f=side, val=g.chance(.5))
                        else:
                            x = dict(op='fork', f=side)
                            cnt += 1
                        nr += 1
                        x['meanwhile'] = nr
                        regs.append(x)
                    thr.append(regs)
                sched = todo[kind].pop() if todo.get(kind) else []
                evs.append(dict(op='conc', thr=copy.deepcopy(thr), sched=sched, seed=r.randrange(10 ** 9),
                                every=r.choice([0, 0, 3, 10, 40, 150]), free=ck.thorough and g.chance(.15)))
                evs += regs
            sess.append(evs)
        wi = ck.add_world(g.w)
        for evs in sess:
            ck.session(wi, evs, fresh=True)


def damage(g, s):
    """Make (probably) invalid JSON of the text."""
    r = g.r
    k = r.random()
    if k < .3 and len(s) > 1:
        return s[:r.randrange(len(s))]
    if k < .45:
        return s + r.choice(['}', ']', ' x', ',', '"', ' 1'])
    if k < .6:
        return s.replace('"', "'")
    if k < .7:
        return r.choice(['', ' ', '{', '[1,]', '{"a": 1,}', '{a: 1}', 'nul', "'x'", '\ufeff[]', '[1 2]', '"\t"', '01',
                         '{"a" 1}', '\n\n[1,\n 2,\n x]'])
    i = r.randrange(len(s) + 1)
    return s[:i] + r.choice('{}[],:"x\\') + s[i:]


def front_event(g, types, js, fork_of, nf, custom):
    """A call of dumps, dumpb, loads, loadb, transform or of a method of JsonSerializable."""
    r = g.r
    f = r.randint(1, nf) if g.chance(.3) else 1
    k = r.random()
    do = {o: True for o in ('nulls', 'priv', 'props', 'cvars', 'usec', 'strict') if g.chance(.15)}
    if g.chance(.15):
        do['attrs'] = r.sample(['name', 'count', 'colour', 'child', 'items', 'level'], r.choice([1, 2]))
    if g.chance(.15):
        do['verb'] = ['class']
    if g.chance(.3):
        do['kt'] = r.choice(list(UNSNAKE))
    if g.chance(.15):
        do['enumname'] = r.choice(['yes', 'no'])
    if custom and g.chance(.4):
        do['xtra'] = g.scalar(r.choice([['int'], ['str'], ['bool']]))
    lo = dict(strict=True) if g.chance(.2) else {}
    if g.chance(.3):
        lo['kt'] = r.choice(['snake', 'lower', 'unprefix'])
    if g.chance(.15):
        lo['warn'] = True
    if 'xtra' in do:
        lo['xtra'] = do['xtra']
    method = js and g.chance(.45)
    T = types()
    if k < .4:                                        # dumps and the like
        v = g.value(T, 3)
        if g.chance(.1):
            v = misfit(g, v)
        e = dict(op='fdump', jd=r.choice(JDS), enc=r.choice(ENCS), encgiven=g.chance(.5))
        if not custom and g.chance(.4):
            e['warm'] = True
        if method:
            v = g.instance(r.choice(js), 3)
            if not g.is_jsonser(v[1]):
                return None
            root = g.root_with(v[1])
            e['mode'] = r.choice(['.json', 'str', '.dump', '.dumps', '.dumpb'])
            kc = do if e['mode'] not in ('.json', 'str') else {}
            wd = g.withs[root][0] if root and e['mode'] in ('.json', '.dump') else {}
            e.update(T=NOT, kc=K(**kc), k=K(**dict(kc, fork=fork_of[root] if root else 1, **{})))
            e['k'].update(wd)
            if e['mode'] == 'str':
                e['jd'] = {}
        else:
            e['mode'] = r.choice(['dumps', 'dumpb'])
            e.update(T=T if g.chance(.5) else NOT, k=K(**dict(do, fork=f)), pos=g.chance(.15))
        e['v'] = v
    elif k < .85:                                     # loads and the like
        e = dict(op='fload', jd=r.choice([{}, {}, {}, {'parse_float': 'str'}, {'parse_int': 'float'},
                                          {'strict': False}]),
                 enc=r.choice(ENCS), encgiven=g.chance(.5))
        if method:
            n = r.choice(js)
            T = ['cls', n]
            root = g.root_with(n)
            e['mode'] = r.choice(['.from_json', '.load', '.loads', '.loadb'])
            wl = g.withs[root][1] if root and e['mode'] in ('.from_json', '.load') else {}
            e.update(kc=K(**lo), k=K(**dict(lo, fork=fork_of[root] if root else 1)))
            e['k'].update(wl)
        else:
            e['mode'] = r.choice(['loads', 'loadb'])
            e.update(k=K(**dict(lo, fork=f)), pos=g.chance(.15))
            T = T if g.chance(.9) else NOT
        j = g.json_for(T, 3) if T != NOT else g.anyjson(3)
        if g.chance(.4):
            j = g.mutate(j)
        e.update(j=j, T=T, form=r.choice([{}, {'indent': 1}, {'ensure_ascii': False}]))
        if e['mode'] not in ('.from_json', '.load'):
            if g.chance(.25):
                e['txt'] = damage(g, json.dumps(jw.Ctx(None).dec(j), **e['form']))
            if 'loadb' in e['mode'] and g.chance(.2):
                e['given'] = r.choice(['str', 'bytearray', 'none', 'obj', 'undecodable', 'undecodable'])
    else:                                             # transform
        v = g.value(T, 3)
        k2 = dict(lo, kt=UNSNAKE.get(do.get('kt', ''), '')) if g.chance(.8) else lo
        T2 = T if g.chance(.7) else g.type(2)
        e = dict(op='transform', v=v, T=T if g.chance(.5) else NOT, k=K(**dict(do, fork=r.choice([f, f, 1]))), T2=T2,
                 k2=K(**dict(k2, fork=r.choice([f, f, 1]))), pos=g.chance(.2), emptykw=g.chance(.3),
                 mapper=r.choice(['none', 'none', 'id', 'drop', 'wrap', 'const', 'boom']))
        if e['mapper'] == 'const':
            e['mj'] = g.json_for(T2, 2)
    return e


def c18(ck):
    nw, ns, ne = sizes(ck, (40, 4, 30), (250, 8, 40))
    for w in range(nw):
        custom = w % 3 == 0
        g = G('%s-%s' % (ck.seed, w), poly=True, bodyattrs=True, inherit=.4, props=w % 2 == 0, cvars=w % 4 == 0,
              hashed=True, withs=.6, nonjson=True, kinds=['jsonser', 'jsonser', 'plain', 'data', 'attrs', 'nt', 'jsonser'])
        g.world('w%d' % w)
        rg = Regs(g)
        r = g.r
        js = [n for n in g.classes() if g.is_jsonser(n)]
        roots = sorted(g.withs)
        sess = []
        for _ in range(ns):
            # the forks of the classes with with_dump or with_load come first
            evs, nf = [], 1
            fork_of = {}
            for x in roots:
                evs.append(dict(op='fork', f=1, via='world', cls=x))
                nf += 1
                fork_of[x] = nf
            if custom:
                for _ in range(r.randint(0, 1)):
                    evs.append(dict(op='fork', f=r.randint(1, nf), via=''))
                    nf += 1
                for _ in range(r.randint(1, 4)):
                    evs.append(rg.reg(r.choice('sdv'), r.randint(1, nf)))
                if g.chance(.3):     # something that is not JSON
                    evs.append(rg.reg('s', 1))
                    g.w.fn[evs[-1]['fn']] = ['const', ['set', [['int', 1], ['int', 2]]]]
            types = touched(g, rg, evs) if custom else lambda: g.type(3)
            while len(evs) < ne:
                e = front_event(g, types, js, fork_of, nf, custom)
                if e is None:
                    continue
                evs.append(e)
            sess.append(evs)
        wi = ck.add_world(g.w)
        for evs in sess:
            ck.session(wi, evs, fresh=True)


def strkeys(v):
    """Has every dict of the value only keys that are strings?"""
    if isinstance(v, list):
        if v and v[0] in ('dict', 'ddict', 'odict') and len(v) > 1 and isinstance(v[1], list):
            return all(isinstance(p, list) and p[0][0] == 'str' and strkeys(p[1]) for p in v[1])
        return all(map(strkeys, v))
    return True


def deco(g, types, f, base=None):
    """The call of a decorated function (of the one of the event base, if there is one)."""
    r = g.r
    if base is not None:
        return deco_call(g, types, copy.deepcopy(base), copy.deepcopy(base['sig']))
    dir_ = r.choice(['loaded', 'dumped'])
    e = dict(op='deco', dir=dir_, pm=g.chance(.85), rv=g.chance(.85), mapper=('load' if dir_ == 'loaded' else 'dump'),
             isasync=g.chance(.3), style=r.choice(['func', 'func', 'method', 'method', 'class', 'static']),
             oncls=g.chance(.5), fwd=g.chance(.25), short=g.chance(.5), retnone=g.chance(.5))
    if e['style'] == 'static':
        e['isasync'] = False
    e['retnone'] = e['retnone'] and not e['fwd']
    if g.chance(.3):
        e['mapper'] += r.choice('sb')
    if g.chance(.15):
        e['fname'] = r.choice(['__private', '_one', '__call_it'])
    rdir = dir_
    if e['mapper'] in ('load', 'dump') and g.chance(.15):
        e['rdir'] = rdir = r.choice(['loaded', 'dumped'])
        e['pm'] = e['rv'] = True
        e['swap'] = g.chance(.5)

    def options(d):
        o = dict(fork=f)
        if g.chance(.2):
            o['strict'] = True
        if g.chance(.3):
            o['xtra'] = g.scalar(r.choice([['int'], ['str'], ['bool']]))
        if d == 'loaded':
            if g.chance(.25):
                o['kt'] = r.choice(['snake', 'lower', 'unprefix'])
            if g.chance(.1):
                o['warn'] = True
        else:
            if g.chance(.3):
                o['kt'] = r.choice(['camel', 'lisp', 'pascal', 'upper'])
            for x in ('nulls', 'priv', 'props', 'cvars', 'usec'):
                if g.chance(.12):
                    o[x] = True
            if g.chance(.12):
                o['verb'] = ['class']
            if g.chance(.15):
                o['enumname'] = r.choice(['yes', 'no'])
        return K(**o)
    e['k'] = options(dir_)
    if 'rdir' in e:
        e['rk'] = options(rdir)

    # the parameters
    names = r.sample(['name', 'count', 'colour', 'weight', 'a', 'b', 'self_', 'value', 'x'], r.randint(0, 4))
    if g.chance(.1) and e['style'] in ('func', 'static'):
        names = names[:2] + [r.choice(['self', 'cls'])]
    kinds = sorted([r.choice(['po', 'p', 'p', 'p', 'k']) for _ in names], key=['po', 'p', 'k'].index)
    sig, hasdef = [], False
    for n, kd in zip(names, kinds):
        T = types() if g.chance(.85) else NOT
        d = None
        if kd == 'k':
            hasdef = False
        if hasdef or g.chance(.3):
            hasdef, d = True, g.value(T if T != NOT else ['int'], 1)
        sig.append([n, T, kd, d])
    if g.chance(.3):
        i = next((i for i, x in enumerate(sig) if x[2] == 'k'), len(sig))
        sig.insert(i, ['args', types() if g.chance(.8) else NOT, 'va', None])
    if g.chance(.3):
        sig.append(['options', types() if g.chance(.8) else NOT, 'vk', None])
    e['sig'] = [[n, T, kd, ['req'] if d is None else ['val', d]] for n, T, kd, d in sig]
    e['ret'] = types() if g.chance(.8) else NOT
    return deco_call(g, types, e, None)


def deco_call(g, types, e, again):
    r = g.r
    dir_, rdir = e['dir'], e.get('rdir', e['dir'])
    sig = [[n, T, kd, None if d[0] == 'req' else d[1]] for n, T, kd, d in e['sig']]
    names = [x[0] for x in sig]
    e.pop('arity', None)
    mapper = e['mapper']

    def val(d, T, mapped):
        if T == NOT:
            T = types()
        if not mapped:
            return g.value(T, 2)
        if d == 'dumped':
            v = g.value(T, 2)
            return misfit(g, v) if g.chance(.04) else v
        j = g.json_for(T, 2)
        return g.mutate(j) if g.chance(.1) else j
    # the call
    pos, kw, args = [], [], []
    bypos = True
    for n, T, kd, d in sig:
        if kd == 'va':
            if bypos:
                for i in range(r.randint(0, 3)):
                    pos.append(val(dir_, T, e['pm']))
                    args.append(['args/%d' % i, T, pos[-1]])
            continue
        if kd == 'vk':
            for x in r.sample(['opt_a', 'opt_b', 'opt_c', 'self'], r.randint(0, 2)):
                if x == 'self' and e['style'] != 'func' or x == 'self' and 'self' in names:
                    continue
                kw.append([x, val(dir_, T, e['pm'])])
                args.append(['options/' + x, T, kw[-1][1]])
            continue
        if d is not None and g.chance(.5):
            args.append([n, ['asis'], d])
            bypos = False
            if kd == 'po':
                bypos = None
            continue
        v = val(dir_, T, e['pm'])
        if bypos is None and kd == 'po':
            args.append([n, ['asis'], d])
            if d is None:
                return None
            continue
        if kd == 'po' or (kd == 'p' and bypos and g.chance(.6)):
            if not bypos:
                return None
            pos.append(v)
        else:
            bypos = bypos and False
            kw.append([n, v])
        args.append([n, T, v])
    # (the arguments are mapped in the order of the call: positional ones first)
    order = {n: i for i, (n, _) in enumerate(kw)}
    r2 = list(kw)
    r.shuffle(r2)
    kw[:] = r2
    order = {n: i for i, (n, _) in enumerate(kw)}
    args.sort(key=lambda a: order.get(a[0].split('/')[-1] if a[0].startswith('options/') else a[0], -1))
    if e['style'] in ('method', 'class'):
        args.insert(0, ['self' if e['style'] == 'method' else 'cls', ['asis'], ['bool', True]])
    e.update(pos=pos, kw=kw, args=args)
    e['body'] = ['boom'] if g.chance(.08) else ['ret', val(rdir, e['ret'], e['rv'])]
    if e['mapper'][4:] and not strkeys([args, e['body'], e['ret']]):
        e['mapper'] = e['mapper'][:4]
    if e['mapper'][4:] and any(x in json.dumps([sig, e['ret']]) for x in ('"dict"', 'mapping', 'odict', 'Dict')):
        e['mapper'] = e['mapper'][:4]
    if g.chance(.05):
        if 'args' not in [x[0] for x in sig] and g.chance(.5):
            e['pos'] = pos + [['int', 1]] * (1 + len([x for x in sig if x[2] in ('po', 'p')]))
            e['arity'] = True
            e['kw'] = []
        elif 'options' not in [x[0] for x in sig]:
            e['kw'] = kw + [['no_such_parameter', ['int', 1]]]
            e['arity'] = True
    if again is not None and e['mapper'] != mapper:
        return None
    return e


def c19(ck):
    nw, ns, ne = sizes(ck, (40, 4, 34), (250, 8, 50))
    for w in range(nw):
        custom = w % 3 == 0
        g = G('%s-%s' % (ck.seed, w), poly=True, bodyattrs=True, inherit=.4, props=w % 2 == 0, hashed=True,
              kinds=['jsonser', 'plain', 'data', 'attrs', 'nt', 'plain'])
        g.world('w%d' % w)
        rg = Regs(g)
        r = g.r
        sess = []
        for _ in range(ns):
            evs, nf = [], 1
            if custom:
                for _ in range(r.randint(0, 2)):
                    evs.append(dict(op='fork', f=r.randint(1, nf), via=''))
                    nf += 1
                for _ in range(r.randint(1, 4)):
                    evs.append(rg.reg(r.choice('sdv'), r.randint(1, nf)))
            types = touched(g, rg, evs) if custom else lambda: g.type(2)
            while len(evs) < ne:
                f = r.randint(1, nf)
                if g.chance(.06):
                    d = r.choice(['loaded', 'dumped'])
                    if g.chance(.5):
                        e = dict(op='decobad', dir=d, what=r.choice(['static', 'classmethod', 'class', 'builtin']),
                                 k=K(fork=f))
                    else:
                        what = r.choice(['loader', 'dumper'])
                        e = dict(op='decobad', dir='loaded' if what == 'loader' else 'dumped', what=what, k=K(fork=f),
                                 which=r.choice(['json', 'other', 'none', 'lambda', 'transform', 'str']))
                else:
                    old = [x for x in evs if x['op'] == 'deco' and 'fid' in x]
                    b = r.choice(old[-4:]) if old and g.chance(.4) else None      # the same function once more
                    e = deco(g, types, f, b)
                    if e is None:
                        continue
                    e['fid'] = b['fid'] if b else len(evs)
                evs.append(e)
            sess.append(evs)
        wi = ck.add_world(g.w)
        for evs in sess:
            ck.session(wi, evs, fresh=True)


ALL = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05,
       'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09,
       'C10': c10, 'C11': c11, 'C12': c12,
       'C13': c13, 'C14': c14, 'C15': c15, 'C23': c23, 'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19, 'C20': c20, 'C21': c21, 'C22': c22}
