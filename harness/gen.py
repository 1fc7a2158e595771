"""Random worlds, types, values and JSON (all in encoded form)."""
import datetime as dtm
import random
import string

from jw import World, NOT, NT, NONE, ZONES, osrc

ATTRS = ['name', 'count', 'some_value', 'first_name', 'colour', 'weight', 'total_sum', 'items',
         'child', 'other_one', 'owner', 'tags', 'start_at', 'the_long_name', 'ident', 'extra',
         'zip_code', 'level', 'parts', 'next_node']
ODDATTRS = ['class_', 'from_', 'name_2', 'x1y', 'aB', 'cls', 'obj', 'strict', 'classes', 'dump_time', 'real', 'offset',
            'name_full', 'count2', 'item', 'fork_inst', 'sig', 'attr_name']
MEMBERS = ['load', 'dump', 'json', 'fork', 'loads', 'from_json', 'with_dump', 'set_serializer']     # of JsonSerializable
PRIVS = ['_secret', '_hidden_one', '_internal', '_cache_size']
PROPS = ['prop_one', 'prop_two', 'computed', 'derived_value']
CVARS = ['class_var', 'default_size', 'kind_of', 'version_nr']
CLASSN = ['Alpha', 'Bravo', 'Charlie', 'Delta', 'Echo', 'Foxtrot', 'Golf', 'Hotel', 'India', 'Juliet',
          'Kilo', 'Lima', 'Mike', 'Oscar', 'Papa', 'Quebec', 'Romeo', 'Sierra', 'Tango', 'Victor']
WORDS = ['red', 'green', 'blue', 'apple', 'Mix', 'Hello', 'x', 'abc_def', 'fooBar', 'a b', '', 'Zed',
         'one-two', 'é', 'longer text here', 'T', '12', '3.5', 'true', 'None', 'key', 'lisp-case']
DTSTR = ['2020-02-29T12:30:15Z', '2019-12-31T23:59:59.123456+05:30', '1999-01-01T00:00:00-08:00',
         '2021-06-15T08:09:10.5Z']
DTODD = ['2021-02-30T00:00:00Z', '2020-01-01', '12:30:00', '2020-01-01T25:00:00Z', '2020-01-01T10:00:00',
         '2020-13-01T00:00:00Z', '2020-01-01 10:00:00Z', '20200101T100000Z', '2020-01-01T10:00Z',
         '2020-1-1T1:2:3Z', 'T', 'Z', '-', '2020-01-01T10:00:00+25:00', '2020-01-01T10:00:00.1234567Z',
         '0000-01-01T00:00:00Z', '2020-01-01T10:00:00+01', '2020-01-01T10:00:00.Z']

PRIMS = [['int'], ['float'], ['str'], ['bool']]
SCALARS = [['datetime'], ['date'], ['time'], ['timedelta'], ['timezone'], ['zoneinfo'], ['uuid'],
           ['decimal'], ['complex'], ['path']]
HASHABLE = [['int'], ['str'], ['bool'], ['float'], ['date'], ['datetime'], ['uuid'], ['decimal'], ['path'],
            ['timedelta'], ['time']]


ZONED = ['Europe/Amsterdam', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe', 'America/St_Johns',
         'Asia/Kathmandu', 'Europe/London', 'Pacific/Apia', 'Africa/Abidjan', 'Pacific/Kiritimati', 'Etc/GMT+12']
# Around changes of the offset.
EDGES = [[2020, 10, 25, 2, 30], [2020, 10, 25, 1, 30], [2020, 3, 29, 3, 0], [2020, 3, 29, 1, 59], [2020, 11, 1, 1, 30],
         [2020, 7, 1, 0, 0], [2020, 12, 31, 23, 59], [2021, 4, 4, 1, 45], [2011, 12, 29, 23, 59], [2011, 12, 31, 0, 1]]


_CHANGES = {}


def changes(zone):
    """The moments (UTC, without seconds) at which the offset of the zone changes."""
    if zone not in _CHANGES:
        import zoneinfo
        z, day = zoneinfo.ZoneInfo(zone), dtm.timedelta(days=1)
        off = lambda t: t.astimezone(z).utcoffset()
        t, out = dtm.datetime(1973, 1, 1, tzinfo=dtm.timezone.utc), []
        while t.year < 2037:
            n = t + 20 * day
            if off(n) != off(t):
                lo, hi = t, n
                while hi - lo > dtm.timedelta(minutes=1):
                    m = lo + (hi - lo) // 2
                    lo, hi = (m, hi) if off(m) == off(lo) else (lo, m)
                out.append(hi.replace(second=0, microsecond=0))
            t = n
        _CHANGES[zone] = out
    return _CHANGES[zone]


def edge(r, zone):
    """A wall clock time (to the minute) close to a change of the offset."""
    cs = changes(zone)
    if not cs or r.random() < .1:
        return list(r.choice(EDGES))
    t = r.choice(cs) + dtm.timedelta(minutes=r.choice([-121, -90, -61, -60, -46, -45, -31, -30, -29, -15, -1, 0, 1, 14, 15,
                                                       29, 30, 31, 45, 59, 60, 61, 90, 121]))
    import zoneinfo
    t = t.astimezone(zoneinfo.ZoneInfo(zone))
    return [t.year, t.month, t.day, t.hour, t.minute]


def offset_at(zone, f, fold=0):
    """The offset in minutes of the wall clock time f in that zone; None if there is no such time."""
    import datetime as dtm
    import zoneinfo
    d = dtm.datetime(*f, tzinfo=zoneinfo.ZoneInfo(zone), fold=fold)
    back = d.astimezone(dtm.timezone.utc).astimezone(d.tzinfo)
    if back.replace(tzinfo=None) != d.replace(tzinfo=None):
        return None
    secs = int(d.utcoffset().total_seconds())
    return secs // 60 if secs % 60 == 0 else None


class G:
    def __init__(self, seed, **opt):
        self.r = random.Random(seed)
        self.opt = opt
        self.w = None
        self.members = []
        self.withs = {}     # class -> options of with_dump and with_load

    def chance(self, p):
        return self.r.random() < p

    def on(self, name, default=True):
        return self.opt.get(name, default)

    # ---------------------------------------------------------------- values --
    def int_(self):
        return ['int', self.r.choice([0, 1, -1, 2, 7, 42, -13, 100, 12345, self.r.randint(-10 ** 6, 10 ** 6)])]

    def bigint(self):
        return ['bigint', str(self.r.choice([10 ** 9, -10 ** 12, 2 ** 63, 10 ** 20 + self.r.randint(0, 999)]))]

    def flt(self):
        r = self.r
        x = r.choice([0, 1, 2, r.randint(0, 1000), r.randint(0, 10 ** 6)])
        m = r.choice([0, 500000, 250000, 125000, r.randint(0, 999) * 1000])
        s = 1 if (x == 0 and m == 0) else r.choice([1, 1, -1])
        return ['flt', s, x, m]

    def str_(self):
        r = self.r
        k = r.random()
        if k < .75:
            return ['str', r.choice(WORDS)]
        return ['str', ''.join(r.choice(string.ascii_letters + '_- 0123') for _ in range(r.randint(1, 8)))]

    def hms(self):
        r = self.r
        return [r.randint(0, 23), r.randint(0, 59), r.randint(0, 59),
                r.choice([0, 0, 0, 1, 999999, 100000, 120, r.randint(0, 999999)])]

    def ymd(self):
        r = self.r
        y = r.choice([1970, 1999, 2000, 2020, 2024, 2038, 1, 33, 999, 9998, r.randint(1000, 3000)])
        m = r.randint(1, 12)
        last = [31, 29 if (y % 4 == 0 and y % 100) or y % 400 == 0 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
        d = r.choice([1, last[m - 1], r.randint(1, 28)])
        return [y, m, d]

    def dt(self):
        r = self.r
        if self.chance(self.opt.get('naive', 0)):
            return ['dtn', self.ymd() + self.hms()]
        if self.chance(self.opt.get('zoned', 0)):
            z = r.choice(ZONED)
            f = self.ymd() + self.hms()
            if f[0] < 1972 or f[0] > 2036:      # (before, offsets have seconds)
                f[0], f[2] = r.randint(1972, 2036), min(f[2], 28)
            if self.chance(.4):
                f[:5] = edge(r, z)
            off = offset_at(z, f, 1 if self.chance(.4) else 0)
            return ['dt', f, off, 'z:' + z] if off is not None else ['dt', f, 75, 'custom']
        k = r.random()
        if k < .4:
            o, kind = 0, 'utc'
        elif k < .45 and self.on('zero'):
            o, kind = 0, 'zero'
        else:
            o = r.choice([60, 120, 330, -300, -210, 765, -480, 1, -1, 59, -61, 1439, -1439, r.randint(1, 1439)])
            kind = 'named' if self.chance(.1) else 'fixed'
        return ['dt', self.ymd() + self.hms(), o, kind]

    def uuid(self):
        h = '%032x' % self.r.getrandbits(128)
        return ['uuid', '-'.join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])]

    def dec(self):
        return ['dec', self.r.choice(['0', '1', '-1', '1.50', '3.14159', '-0.5', '100', '12345678901.25', '0.000001',
                                      str(self.r.randint(0, 9999)) + '.' + str(self.r.randint(0, 999))])]

    def tz(self):
        r = self.r
        o = r.choice([0, 3600, -3600, 19800, -12600, 7200, 60, -60, 86340, -86340])
        name = r.choice(['CET', 'Zone', 'a/b', 'X'])
        return ['tz', o, 'UTC' if o == 0 and r.random() < .5 else name]

    def twin(self, v, p=.7):
        """A value that equals v (with the same hash), but that is not the same: 1, True and 1.0."""
        r = self.r
        sub = lambda x: self.twin(x, p)
        t = v[0]
        if t in ('list', 'tuple', 'deque'):
            return [t, [sub(x) for x in v[1]]]
        if t in ('dict', 'odict'):
            return [t, [[k, sub(x)] for k, x in v[1]]]
        if t == 'obj':
            return [t, v[1], [[a, sub(x)] for a, x in v[2]]]
        if not self.chance(p):
            return v
        if t in ('int', 'bool') or (t == 'flt' and v[3] == 0):
            n = int(v[1]) if t != 'flt' else v[1] * v[2]
            c = [['int', n], ['flt', -1 if n < 0 else 1, abs(n), 0]] if abs(n) <= 10 ** 6 else []
            c += [['bool', bool(n)]] if n in (0, 1) else []
            return r.choice([x for x in c if x[0] != t] or [v])
        if t == 'dec' and 'E' not in v[1]:
            return ['dec', v[1] + ('0' if '.' in v[1] else '.0')]
        if t == 'dt' and v[3] in ('utc', 'fixed', 'zero'):
            o = r.choice([60, -60, 330, 1439, -300])
            try:
                d = dtm.datetime(*v[1]) + dtm.timedelta(minutes=o - v[2])
            except OverflowError:
                return v
            return ['dt', [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond], o, 'fixed']
        if t == 'enum' and self.w.c[v[1]]['base']:
            return [x for m, x in self.w.c[v[1]]['en'] if m == v[2]][0]
        if t == 'nt':
            return ['tuple', [sub(x) for x in v[2]]]
        return v

    def scalar(self, T):
        r = self.r
        t = T[0]
        if t == 'int':
            return self.bigint() if self.chance(.03) else self.int_()
        if t == 'float':
            return self.flt()
        if t == 'str':
            return self.str_()
        if t == 'bool':
            return ['bool', self.chance(.5)]
        if t == 'nonetype':
            return NONE
        if t == 'datetime':
            return self.dt()
        if t == 'date':
            return ['date'] + self.ymd()
        if t == 'time':
            return ['time'] + self.hms()
        if t == 'timedelta':
            s, u = r.choice([0, 1, 59, 3600, 86400, 10 ** 6, r.randint(0, 10 ** 6)]), r.choice([0, 0, 500000, 250000])
            return ['td', 1 if (s == 0 and u == 0) else r.choice([1, 1, -1]), s, u]
        if t == 'timezone':
            return self.tz()
        if t == 'zoneinfo':
            return ['zi', r.choice(ZONES)]
        if t == 'uuid':
            return self.uuid()
        if t == 'decimal':
            return self.dec()
        if t == 'complex':
            return ['cplx', self.flt(), self.flt()]
        if t == 'path':
            return ['path', r.choice(['.', 'a', 'a/b', '/', '/x/y.txt', '../up', 'dir/sub dir/f', 'a.', 'b.c/d.', '.x', '..', ' a ', '~/z',
                                      'x/../y', 'e~/\\n'])]
        raise ValueError(T)

    def natural(self, depth=2):
        """A value that survives untyped loading: JSON natural."""
        r = self.r
        k = r.random()
        if depth <= 0 or k < .7:
            return self.scalar(r.choice([['int'], ['str'], ['bool'], ['float'], ['int'], ['str'], ['nonetype']]))
        if k < .85:
            return ['list', [self.natural(depth - 1) for _ in range(r.randint(0, 3))]]
        return ['dict', self.strpairs(lambda: self.natural(depth - 1))]

    def strpairs(self, f, n=None):
        if self.on('safekeys', False):
            ks = self.r.sample(['some_key', 'other_key', 'plain', 'the_third', 'one', 'a_very_long_key'],
                               self.r.randint(0, 3) if n is None else min(n, 6))
            return [[['str', k], f()] for k in ks]
        ks = self.r.sample(['k%d' % i for i in range(4)] + ['some_key', 'other_key', 'plain', 'the_third'],
                           self.r.randint(0, 3) if n is None else n)
        return [[['str', k], f()] for k in ks]

    def anyval(self, depth=2):
        """Any dumpable value, of a random type."""
        return self.value(self.type(depth, union=False), depth)

    def value(self, T, depth=3):
        r = self.r
        t = T[0]
        if t in ('any', 'object', 'notype'):
            if depth > 0 and t != 'any' and self.chance(self.opt.get('objs', 0)):
                cl = self.classes(['plain', 'data', 'attrs', 'jsonser'])
                if cl:
                    return self.instance(r.choice(cl), depth - 1)
            return self.natural(depth) if self.chance(self.opt.get('natural', .6)) or depth <= 0 \
                else self.anyval(depth - 1)
        if t == 'newtype':
            return self.value(self.w.n[T[1]], depth)
        if t == 'union':
            ms = T[1]
            m = r.choice(ms)
            if depth <= 0 and NT in ms:
                m = NT
            return self.value(m, depth)
        if t == 'cls':
            return self.instance(T[1], depth)
        n = r.choice([0, 1, 1, 2, 2, 3, 3 if depth > 2 or r.random() < .8 else r.randint(4, 7)]) if depth > 0 else 0
        sub = lambda X: self.value(X, depth - 1)
        if t in ('list', 'List', 'iter', 'seq'):
            if T == ['list'] and 'objs' in self.opt:
                return ['list', [self.natural(depth - 1) for _ in range(n)]]
            E = T[1] if len(T) > 1 else NOT
            return ['list', [sub(E) for _ in range(n)]]
        if t in ('deque',):
            E = T[1] if len(T) > 1 else NOT
            return ['deque', [sub(E) for _ in range(n)]]
        if t in ('tuple', 'Tuple'):
            return ['tuple', [sub(NOT) for _ in range(n)]]
        if t == 'tuplen':
            return ['tuple', [sub(X) for X in T[1]]]
        if t == 'tuplee':
            return ['tuple', [sub(T[1]) for _ in range(n)]]
        if t in ('set', 'frozenset'):
            E = T[1] if len(T) > 1 else r.choice([['int'], ['str']])
            return ['fset' if t == 'frozenset' else 'set', self.uniq([self.value(E, 1) for _ in range(n)])]
        if t in ('dict', 'Dict', 'mapping', 'defaultdict', 'odict'):
            tag = {'defaultdict': 'ddict', 'odict': 'odict'}.get(t, 'dict')
            if len(T) == 1:
                return [tag, self.strpairs(lambda: sub(NOT))]
            if T[1] == ['str']:
                return [tag, self.strpairs(lambda: sub(T[2]), n)]
            ks = self.uniq([self.value(T[1], 1) for _ in range(n)])
            return [tag, [[k, sub(T[2])] for k in ks]]
        return self.scalar(T)

    def uniq(self, vs):
        """Without values that are equal to or dumped like one another."""
        out, seen = [], set()
        for v in vs:
            keys = {repr([v[0], sorted(v[1], key=repr)] if v[0] == 'fset' else v)}
            if v[0] == 'nt':             # a tuple that equals it
                keys = {repr(['tuple', v[2]])}
            if v[0] == 'cplx' and v[2][2:] == [0, 0]:
                keys.add('n%s' % float(v[1][1] * (v[1][2] + v[1][3] / 1e6)))
            if v[0] in ('int', 'flt', 'bool'):
                keys.add('n%s' % float(v[1] * (v[2] + v[3] / 1e6) if v[0] == 'flt' else int(v[1])))
            if v[0] in ('dt', 'dtn'):
                keys.add('dt')       # equal instants with different offsets
            if v[0] == 'tz':
                keys.add('tz%s' % v[1])
            if v[0] == 'dec':
                keys.add('n%s' % float(v[1]))
            if v[0] == 'td':
                keys.add('td%s' % (v[2:],))
            if not keys & seen:
                out.append(v)
            seen |= keys
        return out

    def subclasses(self, n):
        return [m for m, c in self.w.c.items() if n in c['mro'] and c['k'] == self.w.c[n]['k']]

    def instance(self, n, depth):
        r = self.r
        c = self.w.c[n]
        if c['k'] == 'enum':
            return ['enum', n, r.choice(c['en'])[0]]
        if c['k'] == 'nt':
            return ['nt', n, [self.value(p[1], depth - 1) for p in c['ps']]]
        if depth > -2 and self.on('poly', False) and self.chance(.4):
            n = r.choice([m for m, x in self.w.c.items() if n in x['mro']])
            c = self.w.c[n]
        attrs = []
        for p, T, d, k, a in c['ps']:
            if a:
                v = d[1] if d[0] == 'val' and self.chance(.3) else self.value(T, depth - 1)
                attrs.append([a, v])
        if depth > -2 and self.on('bodyattrs', False):
            for a, T in c['an']:
                if a not in [x[0] for x in attrs] and a not in [p[0] for p in c['ps']] and not c['slots'] \
                        and not c['frozen'] and a not in [x[0] for x in c['cv']] and self.chance(.6):
                    attrs.append([a, self.value(T, depth - 1)])
        return ['obj', n, attrs]

    # ----------------------------------------------------------------- types --
    def classes(self, kinds=None):
        return [n for n, c in self.w.c.items() if kinds is None or c['k'] in kinds]

    def hashable_type(self):
        r = self.r
        k = r.random()
        en = self.classes(['enum'])
        if k < .2 and en:
            return ['cls', r.choice(en)]
        if k < .3:
            return ['tuplen', [['int'], ['str']]]
        return r.choice(HASHABLE)

    def key_type(self):
        r = self.r
        k = r.random()
        if k < .55 or not self.on('keys'):
            return ['str']
        en = self.classes(['enum'])
        if k < .65 and en:
            return ['cls', r.choice(en)]
        if k < .75 and self.on('hashed', False):
            return r.choice([['tuplen', [['int'], ['str']]], ['tuplee', ['int']], ['complex'],
                             ['timezone']])
        return r.choice([['int'], ['date'], ['uuid'], ['datetime'], ['time'], ['path'], ['decimal']])

    def type(self, depth=2, union=True, nested=False, cls=True):
        r = self.r
        k = r.random()
        cl = self.classes() if cls and self.w else []
        if depth <= 0 or k < .28:
            j = r.random()
            if j > .965 and self.on('bare'):
                return r.choice([['any'], ['object'], ['object']])
            if j < .45 or not cl:
                return r.choice(PRIMS)
            if j < .7:
                return r.choice(SCALARS)
            return ['cls', r.choice(cl)]
        sub = lambda: self.type(depth - 1, union, True, cls)
        if k < .45 and cl:
            return ['cls', r.choice(cl)]
        if k < .55:
            return ['list', sub()]
        if k < .60:
            return ['tuplen', [sub() for _ in range(r.randint(0 if self.on('emptytup') else 1, 3))]]
        if k < .64:
            return ['tuplee', sub()]
        if k < .68:
            return [r.choice(['set', 'frozenset']), self.hashable_type()]
        if k < .71:
            return [r.choice(['deque', 'iter', 'seq']), sub()]
        if k < .80:
            return [r.choice(['dict', 'dict', 'dict', 'mapping', 'defaultdict', 'odict']) if self.on('maps')
                    else 'dict', self.key_type(), sub()]
        if k < .90 and union:
            if self.on('nounion', False):
                m = self.type(depth - 1, False, True)
                return ['union', [m, NT]] if m[0] not in ('any', 'object') else m
            return self.union(depth, nested)
        if k < .93 and self.w and self.w.n:
            return ['newtype', r.choice(list(self.w.n))]
        if k < .96 and self.on('bare'):
            return r.choice([['list'], ['dict'], ['tuple'], ['List'], ['Dict'], ['Tuple'], ['any'], ['object']])
        return r.choice(PRIMS + SCALARS)

    def union(self, depth, nested=True):
        """A Union; nested ones have their members in a canonical order, as
        typing caches (and thereby reorders) equal Unions."""
        r = self.r
        ms = []
        for _ in range(r.choice([1, 1, 2, 3])):
            m = self.type(depth - 1, False, True)
            if m not in ms and m not in ([['any'], ['object']]):
                ms.append(m)
        if r.random() < .6:
            ms.append(NT)
        if [m for m in ms if m != NT] == []:
            return ['union', [['int'], NT]]
        if len(ms) == 1:
            ms.append(NT)
        if nested:
            ms = sorted([m for m in ms if m != NT], key=repr) + [m for m in ms if m == NT]
        elif len(ms) > 2:
            r.shuffle(ms)
        return ['union', ms]

    # ---------------------------------------------------------------- worlds --
    def world(self, name, n=6):
        r = self.r
        w = self.w = World(name)
        # Class names are unique in a process: typing caches forward references by name.
        names = [x + name.capitalize() for x in r.sample(CLASSN, n + 4)]
        if self.on('enum'):
            base = r.choice(['', '', 'int', 'str'])
            ms = r.sample(['RED', 'GREEN', 'blue', 'Four'], r.randint(2, 4))
            if base == 'int' or (base == '' and self.chance(.5)):
                members = [[m, ['int', i + 1]] for i, m in enumerate(ms)]
            else:
                members = [[m, ['str', 'v_' + m.lower()]] for m in ms]
            k = r.random()
            if k < .2 and base != 'int':    # values that are names of other members
                members = [[m, ['str', ms[i - 1]]] for i, m in enumerate(ms)]
            elif k < .35 and base != 'str':    # falsy and mixed values
                odd = [['int', 0], ['int', -7], ['int', 12]] if base else [['int', 0], ['str', ''], NONE]
                members[:2] = [[m, v] for (m, _), v in zip(members, r.sample(odd, 2))]
            w.add_enum(names.pop(), members, base, [['ALIAS', ms[0]]] if self.chance(.3) else [])
        if self.on('newtype'):
            T = self.type(1, True)
            while T[0] in ('object', 'any'):       # (such a NewType is left open)
                T = self.type(1, True)
            w.add_newtype('NewType' + name.capitalize(), T)
        self.mixins = []
        if self.chance(self.opt.get('mixin', .25 if self.on('props', False) and self.on('cvars', False) else 0)):
            self.add_mixin(names.pop())
            n -= 1
        kinds = self.opt.get('kinds', ['plain', 'plain', 'data', 'data', 'attrs', 'nt', 'jsonser', 'slots'])
        self.members = []
        if self.chance(.5) and [k for k in kinds if k != 'jsonser'] and not self.opt.get('withs'):
            kinds = [k for k in kinds if k != 'jsonser']
            self.members = MEMBERS
        self.chain = False
        if 'chain' in self.opt and self.chance(self.opt['chain']):     # every class inherits from the one before
            self.chain = True
            kinds = [r.choice([k for k in kinds if k in ('plain', 'data', 'jsonser')] or ['plain'])]
        for i in range(n):
            self.add_class(names.pop(), r.choice(kinds))
        self.hide()
        return w

    def hide(self):
        """Make some classes unavailable for import."""
        for n, c in self.w.c.items():
            if c['k'] in ('plain', 'data', 'attrs', 'jsonser') and ("'%s'" % n) not in self.w.src[n] \
                    and self.chance(self.opt.get('hidden', 0)):
                c['imp'] = False

    def field(self, used, defaults, pool=None):
        r = self.r
        names = ODDATTRS + self.members if not pool and not self.on('safekeys', False) and self.chance(.12) else ATTRS
        a = r.choice([x for x in (pool or names) if x not in used] or ['attr_%d' % len(used)])
        used.add(a)
        T = self.type(self.opt.get('fdepth', 2))
        d = ['req']
        if defaults and self.chance(.6):
            if self.chance(.3):
                T = ['union', [self.type(1, False), NT]]
                d = ['val', NONE]
            else:
                T = r.choice(PRIMS)
                d = ['val', self.scalar(T)]
                if d[1][0] == 'bigint':
                    d = ['val', ['int', 3]]
        return a, T, d

    def add_mixin(self, name):
        """A class without a constructor, that others may inherit from as well."""
        r = self.r
        ms = r.sample(PROPS + CVARS, r.randint(1, 3))
        props = [[a, 'ro', ['const', self.scalar(r.choice(PRIMS[1:3]))]] for a in ms if self.chance(.5)]
        self.w.add_plain(name, [], own_init=False, props=props,
                         cvs=[(a, ['str', 'mixed in']) for a in ms if a not in [p[0] for p in props]])
        self.mixins.append(name)

    def add_class(self, name, k):
        r = self.r
        w = self.w
        used = set()
        nf = 1 if self.chain else r.choice([1, 2, 2, 3, 4])
        slots = k == 'slots' or (k in ('data', 'attrs') and self.chance(self.opt.get('dslots', .12)))
        slotsub = self.on('slotsub') and self.chance(.4)      # inherit from a class with slots
        cand = [b for b in self.classes(['plain' if k == 'slots' else k])
                if not w.c[b]['frozen'] and w.c[b]['slots'] == (slotsub or k == 'slots')
                and not any(p[3] in ('va', 'vk', 'k') for p in w.c[b]['ps'])]
        bases = [cand[-1] if self.chain else r.choice(cand)] if cand and k in ('plain', 'data', 'attrs', 'jsonser', 'slots') and \
            (slotsub or self.chain or self.chance(self.opt.get('inherit', .35))) else []
        over = []
        if bases and k in ('plain', 'jsonser'):     # inherited members that become something else
            over = [x[0] for m in ('pr', 'cv') for x in w.c[bases[0]][m] if self.chance(self.opt.get('override', .2 if self.on('props', False) and self.on('cvars', False) else 0))]
        mix = [m for m in self.mixins if not bases or m not in w.c[bases[0]]['mro']]
        if mix and not slots and k in ('plain', 'jsonser', 'data', 'attrs') and self.chance(.4):
            bases.insert(r.randint(0, len(bases)), r.choice(mix))
        for b in bases:
            used |= {p[0] for p in w.c[b]['ps']} | {p[4] for p in w.c[b]['ps']}
            used |= {a[0] for a in w.c[b]['an']} | {x[0] for x in w.c[b]['pr']} | {x[0] for x in w.c[b]['cv']}
        has_def = any(p[2][0] == 'val' for b in bases for p in w.c[b]['ps'])
        fs = []
        for i in range(nf):
            dflt = (has_def or (i >= nf // 2)) and self.on('defaults')
            f = self.field(used, dflt)
            if (has_def or any(x[2][0] == 'val' for x in fs)) and f[2][0] == 'req':
                f = (f[0], ['union', [['int'], NT]], ['val', NONE])
            fs.append(f)
        if self.on('recursive') and self.chance(.25) and k in ('plain', 'data'):
            a = r.choice([x for x in ATTRS if x not in used] or ['attr_%d' % len(used)])
            used.add(a)
            fs.append((a, ['union', [['cls', name], NT]], ['val', NONE]))
        if k == 'nt':
            if self.chance(.25):
                fs = [(a, NOT, d if d[0] == 'req' else ['val', ['int', 1]]) for a, T, d in fs]
            w.add_nt(name, fs)
            return
        props = []
        if self.on('props', False) and self.chance(.5) and k != 'slots':
            pn = r.choice([p for p in PROPS if p not in used] or ['prop_%d' % len(used)])
            if self.chance(.5):
                props.append([pn, 'ro', ['const', self.scalar(r.choice(PRIMS[:3]))]])
                if props[0][2][1][0] == 'bigint':
                    props[0][2][1] = ['int', 5]
            else:
                props.append([pn, r.choice(['ro', 'rw']) if self.on('rwprops') else 'ro', ['attr', fs[0][0]]])
        if k in ('data', 'attrs'):
            if self.on('privs', False) and k == 'attrs' and not bases and self.chance(.4):
                fs = [(r.choice(PRIVS), fs[0][1], fs[0][2])] + fs[1:]
                props = []
            w.add_data(name, fs, bases, k, frozen=self.chance(.2) and not bases and not (slots and k == 'data'), props=props,
                       slots=slots and all(w.c[b]['slots'] for b in bases),
                       kwonly=not bases and self.chance(self.opt.get('kwonly', 0)))
            return
        if self.on('untyped') and self.chance(.25):
            i = r.randrange(len(fs))
            fs[i] = (fs[i][0], NOT, fs[i][2])
        attrs = {}
        if self.on('privs', False) and self.chance(.5):
            i = r.randrange(len(fs))
            if not any(p[2] == ['attr', fs[i][0]] for p in props):
                pv = r.choice([x for x in PRIVS if x not in used] or ['_priv_%d' % len(used)])
                used.add(pv)
                fs[i] = (pv, fs[i][1], fs[i][2])
        if k == 'slots':
            w.add_plain(name, fs, bases, slots=True)
            return
        body = []
        if self.on('body') and self.chance(self.opt.get('bodyp', .5)):
            for _ in range(r.randint(1, 2)):
                f = self.field(used, False)
                T = f[1]
                if self.chance(self.opt.get('hashbody', 0)):    # a dict of which the keys are hashed
                    T = ['dict', r.choice([['tuplen', [['int'], ['str']]], ['tuplee', ['int']], ['complex']]),
                         self.type(1)]
                body.append((f[0], T))
        cvs = []
        if self.on('cvars', False) and self.chance(.5):
            cn = r.choice([c for c in CVARS if c not in used] or ['cvar_%d' % len(used)])
            cvs.append((cn, self.r.choice([['int', 7], ['str', 'cv'], ['bool', True]])))
        va = 'args' if self.on('varargs') and self.chance(.15) and not bases else None
        vk = 'kwargs' if self.on('varargs') and self.chance(.15) and not bases else None
        own = self.opt.get('own_init', True)
        kw = {}
        if k == 'jsonser' and not [b for b in bases if self.is_jsonser(b)] and self.chance(self.opt.get('withs', 0)):
            dk, lk = self.with_options('dump'), self.with_options('load')
            self.withs[name] = (dk, lk)
            calls = ['with_dump(fork=True%s)' % (', ' + osrc(dk) if dk else ''),
                     'with_load(fork=True%s)' % (', ' + osrc(lk) if lk else '')]
            calls = [c for c, x in zip(calls, (dk, lk)) if x] or calls
            r.shuffle(calls)
            if len(calls) == 2 and self.chance(.5):      # on the same fork
                calls[1] = calls[1].replace('fork=True, ', 'fork=False, ')
            kw['base'] = '.'.join(['JsonSerializable'] + calls)
        gone = []
        for a in over:
            x = r.random()
            if x < .4:
                props.append([a, 'ro', ['const', self.scalar(r.choice(PRIMS[1:3]))]])
            elif x < .8:
                cvs.append((a, r.choice([['int', 8], ['str', 'over']])))
            else:
                gone.append(a)
        w.add_plain(name, fs, bases, k=k, body=body, gone=gone, **kw, cvs=cvs, props=props, attrs=attrs, va=va, vk=vk,
                    own_init=own or not bases, extra=self.methods() if self.on('methods', False) else ())

    def with_options(self, op):
        """Options for with_dump or with_load."""
        r = self.r
        if self.chance(.2):
            return {}
        if op == 'load':
            return r.choice([{'kt': 'snake'}, {'kt': 'snake'}, {'strict': True}, {'kt': 'snake', 'strict': True}])
        do = {o: True for o in ('nulls', 'priv', 'props', 'cvars', 'usec') if self.chance(.3)}
        if self.chance(.5):
            do['kt'] = r.choice(['camel', 'lisp', 'pascal'])
        if self.chance(.2):
            do['attrs'] = [r.choice(['name', 'count', 'colour'])]
        if self.chance(.2):
            do['verb'] = ['class']
        if self.chance(.2):
            do['enumname'] = r.choice(['yes', 'no'])
        return do

    def root_with(self, n):
        """The class with with_dump or with_load that n inherits from."""
        return next((x for x in self.w.c[n]['mro'] if x in self.withs), None)

    def is_jsonser(self, n):
        return any(x in self.w.c and self.w.c[x]['k'] == 'jsonser' for x in self.w.c[n]['mro'])

    def methods(self):
        """Members that are never part of a dump."""
        opts = [['def method_one(self):', '    return 1'], ['@staticmethod', 'def static_one():', '    return 2'],
                ['@classmethod', 'def class_one(cls):', '    return 3'], ['class Inner:', '    x = 1'],
                ['def _hidden_method(self):', '    return 4'], ['async def async_one(self):', '    return 5']]
        return [x for o in self.r.sample(opts, self.r.randint(0, 3)) for x in o]

    # ------------------------------------------------------------------ JSON --
    def json_for(self, T, depth=3):
        """JSON that is meant to be valid for T (no guarantee)."""
        r = self.r
        t = T[0]
        sub = lambda X: self.json_for(X, depth - 1)
        n = r.choice([0, 1, 1, 2, 3, 3 if depth > 2 or r.random() < .8 else r.randint(4, 7)]) if depth > 0 else 0
        if t in ('any', 'object', 'notype'):
            if depth > 0 and t != 'any' and self.chance(self.opt.get('objs', 0)):
                cl = self.classes(['plain', 'data', 'attrs', 'jsonser'])
                if cl:
                    return self.instance(r.choice(cl), depth - 1)
            return self.anyjson(depth)
        if t == 'newtype':
            return self.json_for(self.w.n[T[1]], depth)
        if t == 'union':
            ms = T[1]
            return self.json_for(NT if depth <= 0 and NT in ms else r.choice(ms), depth)
        if t in ('list', 'List', 'iter', 'seq', 'deque', 'tuple', 'Tuple', 'tuplee', 'set', 'frozenset'):
            E = T[1] if len(T) > 1 else NOT
            vs = [sub(E) for _ in range(n)]
            return ['list', self.uniq(vs) if t in ('set', 'frozenset') else vs]
        if t == 'tuplen':
            return ['list', [sub(X) for X in T[1]]]
        if t in ('dict', 'Dict', 'mapping', 'defaultdict', 'odict'):
            if len(T) == 1:
                return ['dict', self.strpairs(lambda: sub(NOT))]
            ks = self.uniq([self.json_for(T[1], 1) for _ in range(n)])
            if any(k[0] in ('list', 'dict') for k in ks):
                return ['dict', []]
            return ['dict', [[k, sub(T[2])] for k in ks]]
        if t == 'cls':
            c = self.w.c[T[1]]
            if c['k'] == 'enum':
                m = r.choice(c['en'])
                return ['str', m[0]] if self.chance(.6) else m[1]
            if c['k'] == 'nt' and self.chance(.3):
                return ['list', [sub(p[1]) for p in c['ps']]]
            out = []
            for p, PT, d, k, a in c['ps']:
                if k in ('p', 'k') and not (d[0] == 'val' and self.chance(.4)):
                    out.append([['str', p], sub(PT)])
            if c['k'] != 'nt':
                for a, AT in c['an']:
                    if a not in [p[0] for p in c['ps']] and self.chance(.4):
                        out.append([['str', a], sub(AT)])
                if self.chance(.1):
                    out.append([['str', 'unknown_attr'], self.anyjson(1)])
            return ['dict', out]
        v = self.scalar(T)
        return self.jsonform(v)

    def jsonform(self, v):
        """Valid JSON of a scalar, in one of its accepted forms."""
        r = self.r
        t = v[0]
        if t in ('int', 'flt', 'bool', 'str', 'none', 'bigint'):
            if t == 'int' and self.chance(.1):
                return ['str', str(v[1])]
            if t == 'flt' and self.chance(.1):
                return ['int', v[2]]
            return v
        if t in ('dt', 'dtn'):
            return ['str', r.choice(DTSTR)] if self.chance(.5) else ['str', '%04d-%02d-%02dT%02d:%02d:%02dZ' % tuple(v[1][:6])]
        if t == 'date':
            return ['str', '%04d-%02d-%02d' % tuple(v[1:4])]
        if t == 'time':
            return ['str', '%02d:%02d:%02d' % tuple(v[1:4]) + ('.%06d' % v[4] if v[4] else '')]
        if t == 'td':
            return ['flt', v[1], v[2], v[3]] if self.chance(.7) else ['int', v[2]]
        if t == 'tz':
            return ['dict', [[['str', 'name'], ['str', v[2]]], [['str', 'offset'], ['flt', -1 if v[1] < 0 else 1, abs(v[1]), 0]]]]
        if t == 'zi':
            return ['dict', [[['str', 'key'], ['str', v[1]]]]]
        if t in ('uuid', 'dec', 'path'):
            return ['str', v[1]]
        if t == 'cplx':
            a, b = [x if self.chance(.6) else ['int', x[1] * x[2]] if self.chance(.7) else self.jsonform(x) for x in v[1:]]
            return ['dict', [[['str', 'real'], a], [['str', 'imag'], b]]]
        raise ValueError(v)

    def anyjson(self, depth=2):
        r = self.r
        k = r.random()
        if depth <= 0 or k < .62:
            j = r.random()
            if j < .15:
                return ['str', r.choice(DTSTR + DTODD)]
            return self.scalar(r.choice([['int'], ['str'], ['bool'], ['float'], ['nonetype'], ['str']]))
        if k < .8:
            return ['list', [self.anyjson(depth - 1) for _ in range(r.randint(0, 3))]]
        return ['dict', self.strpairs(lambda: self.anyjson(depth - 1))]

    def mutate(self, j, p=.25):
        """Break (or not) a random spot of the JSON j."""
        r = self.r
        spots = []

        def walk(x, path):
            spots.append(path)
            if x[0] == 'list':
                for i, y in enumerate(x[1]):
                    walk(y, path + [(1, i)])
            elif x[0] == 'dict':
                for i, (a, b) in enumerate(x[1]):
                    walk(b, path + [(1, i, 1)])
        walk(j, [])
        path = r.choice(spots)
        import copy
        j = copy.deepcopy(j)

        def change(x):
            k = r.random()
            if x[0] == 'dict' and x[1] and k < .35:
                del x[1][r.randrange(len(x[1]))]
                return x
            if x[0] == 'dict' and k < .5:
                key = ['str', r.choice(['bogus', 'zzz_extra'])]
                if all(a != key for a, _ in x[1]):
                    x[1].append([key, self.anyjson(1)])
                return x
            if x[0] == 'list' and k < .4:
                if x[1] and self.chance(.5):
                    x[1].pop()
                else:
                    x[1].append(self.anyjson(1))
                return x
            if x[0] == 'str' and k < .3:
                return ['str', r.choice(DTODD + WORDS)]
            if k < .6:
                return NONE
            return self.anyjson(1)
        if not path:
            return change(j)
        x = j
        for st in path[:-1]:
            x = x[st[0]][st[1]] if len(st) == 2 else x[st[0]][st[1]][st[2]]
        st = path[-1]
        if len(st) == 2:
            x[st[0]][st[1]] = change(x[st[0]][st[1]])
        else:
            x[st[0]][st[1]][st[2]] = change(x[st[0]][st[1]][st[2]])
        return j
