"""Encoding of types, values and worlds, shared by the generator and the driver.

A *world* is a description of user classes. `World.source()` renders it as a
Python module, `World.record()` as the record that the TLA+ specification knows
(see DESIGN.md, section Encoding). Values and types are tagged lists.
"""
import collections
import datetime as dtm
import math
import re

NOT = ['notype']
NT = ['nonetype']
NONE = ['none']

PRELUDE = '''\
import collections, dataclasses, datetime, decimal, enum, pathlib, typing, uuid, zoneinfo
from abc import ABC
from typing import *
import attr
import jsons
from jsons import JsonSerializable
CLS = {}
_HOOK = []
def _here(x=None):
    for h in _HOOK:
        h()
    return x
class _prop(property):
    pass
'''

SIMPLE = {
    'any': 'typing.Any', 'object': 'object', 'notype': 'None', 'nonetype': 'type(None)',
    'bool': 'bool', 'int': 'int', 'float': 'float', 'str': 'str',
    'datetime': 'datetime.datetime', 'date': 'datetime.date', 'time': 'datetime.time',
    'timedelta': 'datetime.timedelta', 'timezone': 'datetime.timezone',
    'zoneinfo': 'zoneinfo.ZoneInfo', 'uuid': 'uuid.UUID', 'decimal': 'decimal.Decimal',
    'complex': 'complex', 'path': 'pathlib.Path',
    'list': 'list', 'List': 'typing.List', 'tuple': 'tuple', 'Tuple': 'typing.Tuple',
    'set': 'set', 'frozenset': 'frozenset', 'deque': 'collections.deque',
    'dict': 'dict', 'Dict': 'typing.Dict', 'odict': 'collections.OrderedDict',
    'defaultdict': 'collections.defaultdict',
}
GENERIC = {'list': 'typing.List', 'set': 'typing.Set', 'frozenset': 'typing.FrozenSet',
           'deque': 'typing.Deque', 'iter': 'typing.Iterable', 'seq': 'typing.Sequence',
           'dict': 'typing.Dict', 'mapping': 'typing.Mapping',
           'defaultdict': 'typing.DefaultDict', 'odict': 'typing.OrderedDict'}
BUILTIN_GENERIC = {'list': 'list', 'set': 'set', 'frozenset': 'frozenset',
                   'deque': 'collections.deque', 'dict': 'dict',
                   'defaultdict': 'collections.defaultdict',
                   'odict': 'collections.OrderedDict',
                   'iter': 'collections.abc.Iterable', 'seq': 'collections.abc.Sequence',
                   'mapping': 'collections.abc.Mapping'}


def tsrc(T, alt=False, self_name=None):
    """Python source text of the type T; alt: use builtin generics."""
    t = T[0]
    if t in ('cls', 'newtype'):
        return repr(T[1]) if T[1] == self_name else ('CLS[%r]' % T[1])
    if t == 'union':
        args = list(T[1])
        if len(args) == 2 and args[1] == NT:
            return 'typing.Optional[%s]' % tsrc(args[0], alt, self_name)
        return 'typing.Union[%s]' % ', '.join(
            'None' if a == NT else tsrc(a, alt, self_name) for a in args)
    if t == 'tuplen':
        inner = ', '.join(tsrc(a, alt, self_name) for a in T[1]) or '()'
        return ('tuple[%s]' if alt else 'typing.Tuple[%s]') % inner
    if t == 'tuplee':
        return ('tuple[%s, ...]' if alt else 'typing.Tuple[%s, ...]') % tsrc(T[1], alt, self_name)
    if len(T) == 1:
        return SIMPLE[t]
    return '%s[%s]' % ((BUILTIN_GENERIC if alt else GENERIC)[t],
                       ', '.join(tsrc(a, alt, self_name) for a in T[1:]))


def vsrc(v):
    """Python source text of a default value."""
    t = v[0]
    if t == 'none':
        return 'None'
    if t in ('int', 'str', 'bool'):
        return repr(v[1])
    if t == 'flt':
        return repr(v[1] * float('%d.%06d' % (v[2], v[3])))
    if t == 'list':
        return '[%s]' % ', '.join(map(vsrc, v[1]))
    if t == 'tuple':
        return '(%s)' % ''.join(vsrc(x) + ', ' for x in v[1])
    if t == 'dict':
        return '{%s}' % ', '.join('%s: %s' % (vsrc(a), vsrc(b)) for a, b in v[1])
    if t == 'enum':
        return 'CLS[%r].%s' % (v[1], v[2])
    raise ValueError(v)


def osrc(k):
    """Options as keyword arguments in source."""
    names = {'nulls': 'strip_nulls', 'priv': 'strip_privates', 'props': 'strip_properties',
             'cvars': 'strip_class_variables', 'usec': 'strip_microseconds', 'strict': 'strict', 'warn': 'warn_on_fail'}
    out = []
    for a, b in k.items():
        if a == 'kt':
            out.append('key_transformer=jsons.KEY_TRANSFORMER_%sCASE' % b.upper())
        elif a == 'attrs':
            out.append('strip_attr=%r' % (tuple(b),))
        elif a == 'verb':
            out.append('verbose=jsons.Verbosity.WITH_CLASS_INFO')
        elif a == 'enumname':
            out.append('use_enum_name=%r' % (b == 'yes'))
        else:
            out.append('%s=%r' % (names[a], b))
    return ', '.join(out)


class World:
    def __init__(self, name):
        self.mod = name
        self.order = []          # class and newtype names in order of definition
        self.c = {}              # name -> record
        self.src = {}            # name -> source
        self.n = {}              # newtypes
        self.fn = {}             # custom functions
        self.own = {}
        self.bases = {}
        self.dummy = {}
        self.names = []
        self.localoff = 0
        self.inner = {}

    # ------------------------------------------------------------- classes --
    def _base(self, bases):
        """What a class inherits: the MRO after itself, and what is found along it."""
        if not bases:
            return [], [], [], [], []
        mro = [c.__name__ for c in type('_', tuple(self.dummy[b] for b in bases), {}).__mro__[1:-1]]
        an, pr, cv, seen, seen_an = [], [], [], set(), set()
        for m in mro:
            an += [x for x in self.own[m]['an'] if x[0] not in seen_an]
            pr += [x for x in self.own[m]['pr'] if x[0] not in seen]
            cv += [x for x in self.own[m]['cv'] if x[0] not in seen]
            seen |= {x[0] for k in ('pr', 'cv') for x in self.own[m][k]} | set(self.own[m]['gone'])
            seen_an |= {x[0] for x in self.own[m]['an']}
        ps = next((self.c[m]['ps'] for m in mro if self.own[m]['init']), [])
        return mro, an, pr, cv, list(ps)

    def _own(self, name, mro, init, an=(), pr=(), cv=(), gone=()):
        """Remember what a class adds itself."""
        self.own[name] = dict(init=init, an=list(an), pr=list(pr), cv=list(cv), gone=list(gone))
        bases = self.bases[name]
        self.dummy[name] = type(name, tuple(self.dummy[b] for b in bases), {})

    def add(self, name, k, **kw):
        rec = dict(k=k, mro=[name], base='', mod=self.mod, imp=True, ps=[], an=[], pr=[], cv=[],
                   en=[], al=[], slots=False, slotvars=[], slotseq=[], frozen=False)
        rec.update(kw)
        self.c[name] = rec
        self.order.append(name)

    def add_enum(self, name, members, base='', aliases=()):
        lines = ['class %s(%s):' % (name, {'': 'enum.Enum', 'int': 'enum.IntEnum',
                                            'str': 'str, enum.Enum'}[base])]
        for n, v in members:
            lines.append('    %s = %s' % (n, vsrc(v)))
        for a, n in aliases:
            lines.append('    %s = %s' % (a, n))
        self.add(name, 'enum', base=base, en=[[n, v] for n, v in members],
                 al=[[a, n] for a, n in aliases])
        self.src[name] = '\n'.join(lines)

    def add_newtype(self, name, T):
        self.n[name] = T
        self.order.append(name)
        self.src[name] = '%s = NewType(%r, %s)' % (name, name, tsrc(T))

    def add_nt(self, name, fields):
        """fields: [(name, T, default)] with default ['req'] or ['val', v]."""
        untyped = all(f[1] == NOT for f in fields)
        self.add(name, 'nt', ps=[[f, T, d, 'p', f] for f, T, d in fields],
                 an=[] if untyped else [[f, T] for f, T, d in fields])
        if untyped:
            ds = [d for _, _, d in fields if d[0] == 'val']
            self.src[name] = '%s = collections.namedtuple(%r, %r, defaults=%s)\n%s.__module__ = __name__' % (
                name, name, [f for f, _, _ in fields], vsrc(['tuple', [d[1] for d in ds]]), name)
            return
        lines = ['class %s(NamedTuple):' % name]
        for f, T, d in fields:
            lines.append('    %s: %s%s' % (f, tsrc(T), '' if d[0] == 'req' else ' = ' + vsrc(d[1])))
        self.src[name] = '\n'.join(lines)

    def slot_names(self, bases):
        return [a for b in bases for a in self.c[b]['slotvars']]

    def add_data(self, name, fields, bases=(), k='data', frozen=False, imp=True, props=(),
                 kwonly=False, slots=False):
        """A dataclass or attrs class. fields: [(attr, T, default)]."""
        mro, an, pr, cv, ps = self._base(bases)
        self.bases[name] = list(bases)
        ocv = []
        dec = ('@dataclasses.dataclass(%s)' % ', '.join(
            (['frozen=True'] if frozen else []) + (['kw_only=True'] if kwonly else [])
            + (['slots=True'] if slots else []))
               if k == 'data' else '@attr.s(auto_attribs=True%s%s%s)' % (
                   ', frozen=True' if frozen else '', ', kw_only=True' if kwonly else '',
                   ', slots=True' if slots else ''))
        lines = [dec, 'class %s%s:' % (name, '(%s)' % ', '.join('CLS[%r]' % b for b in bases) if bases else '')]
        for f, T, d in fields:
            s = '    %s: %s' % (f, tsrc(T, self_name=name))
            if d[0] == 'val':
                if d[1][0] in ('list', 'dict', 'set'):
                    s += ' = %s=lambda: %s)' % (
                        'dataclasses.field(default_factory' if k == 'data' else 'attr.ib(factory', vsrc(d[1]))
                else:
                    s += ' = ' + vsrc(d[1])
                    if k == 'data' and not slots:
                        ocv.append([f, d[1]])
            lines.append(s)
            pn = f.lstrip('_') if k == 'attrs' else f
            ps = [p for p in ps if p[0] != pn] + [[pn, T, d, 'k' if kwonly else 'p', f]]
            an = [a for a in an if a[0] != f] + [[f, T]]
        if not fields:
            lines.append('    pass')
        # The parameters of __init__ count as annotations too.
        for p in ps:
            if p[0] not in [a[0] for a in an] and p[1] != NOT:
                an = an + [[p[0], p[1]]]
        self._props(lines, props)
        self._own(name, mro, True, [[f, T] for f, T, d in fields], [list(p) for p in props], ocv)
        pr, cv = self._override(name, pr, cv)
        sv = self.slot_names(bases) + ([f for f, _, _ in fields] if slots else [])
        self.add(name, k, mro=[name] + mro, ps=ps, an=an, pr=pr, cv=cv, frozen=frozen, imp=imp,
                 slots=slots, slotvars=sv, slotseq=sv)
        self.src[name] = '\n'.join(lines)

    def _override(self, name, pr, cv):
        o = self.own[name]
        new = {x[0] for k in ('pr', 'cv') for x in o[k]} | set(o['gone'])
        return ([x for x in pr if x[0] not in new] + o['pr'], [x for x in cv if x[0] not in new] + o['cv'])

    def _props(self, lines, props):
        """props: [(name, 'ro'|'rw', ['const', v] | ['attr', n])]"""
        for n, m, b in props:
            lines.append('    @%s' % ('_prop' if len(n) % 2 else 'property'))
            lines.append('    def %s(self):' % n)
            lines.append('        return _here(%s)' % (vsrc(b[1]) if b[0] == 'const' else 'self.' + b[1]))
            if m == 'rw':
                lines.append('    @%s.setter' % n)
                lines.append('    def %s(self, value):' % n)
                lines.append('        self.%s = value' % b[1])

    def add_plain(self, name, params, bases=(), k='plain', body=(), cvs=(), props=(), imp=True,
                  attrs=None, va=None, vk=None, slots=False, extra=(), abc=False, own_init=True,
                  base='JsonSerializable', gone=()):
        """A class with an __init__.

        params: [(name, T, default)], T may be NOT; body: [(attr, T)] annotations;
        cvs: [(name, v)] class variables; attrs: {param: attribute it is stored in};
        gone: inherited members that are replaced by methods.
        """
        mro, an, pr, cv, bps = self._base(bases)
        self.bases[name] = list(bases)
        attrs = attrs or {}
        bs = ['CLS[%r]' % b for b in bases]
        if k == 'jsonser' and not any(self.c[m]['k'] == 'jsonser' for m in mro):
            bs.append(base)
        if abc:
            bs.append('ABC')
        lines = ['class %s%s:' % (name, '(%s)' % ', '.join(bs) if bs else '')]
        own_attrs = [attrs.get(p[0], p[0]) for p in params]
        if slots:
            lines.append('    __slots__ = %r' % (tuple(a for a in own_attrs if a),))
        for a, T in body:
            lines.append('    %s: %s' % (a, tsrc(T, self_name=name)))
            an = [x for x in an if x[0] != a] + [[a, T]]
        for a, v in cvs:
            lines.append('    %s = %s' % (a, vsrc(v)))
        for a in gone:
            lines.append('    def %s(self):' % a)
            lines.append('        return 1')
        own = [[p, T, d, 'p', attrs.get(p, p)] for p, T, d in params]
        inherited = [p for p in bps if p[3] == 'p' and p[0] not in [o[0] for o in own]]
        ps = inherited + own
        ps = [p for p in ps if p[2][0] == 'req'] + [p for p in ps if p[2][0] == 'val']
        if own_init:
            sig = []
            for p, T, d, _, _ in ps:
                sig.append(p + ('' if T == NOT else ': ' + tsrc(T, self_name=name))
                           + ('' if d[0] == 'req' else (' = ' if T != NOT else '=') + vsrc(d[1])))
            if va:
                sig.append('*' + va)
            if vk:
                sig.append('**' + vk)
            lines.append('    def __init__(%s):' % ', '.join(['self'] + sig))
            if inherited:
                lines.append('        super().__init__(%s)' % ', '.join('%s=%s' % (p[0], p[0]) for p in inherited))
            for p in own:
                if p[4]:
                    lines.append('        self.%s = %s' % (p[4], p[0]))
            lines.append('        _here()')
            if va:
                ps = ps + [[va, NOT, ['req'], 'va', '']]
            if vk:
                ps = ps + [[vk, NOT, ['req'], 'vk', '']]
        else:
            lines.append('    pass')
            ps = bps
        lines += ['    ' + x for x in extra]
        self._props(lines, props)
        self._own(name, mro, own_init, body, [list(p) for p in props], [list(x) for x in cvs], gone)
        pr, cv = self._override(name, pr, cv)
        for p in ps:
            if p[1] != NOT:
                an = [a for a in an if a[0] != p[0]] + [[p[0], p[1]]]
        sv = self.slot_names(bases) + ([a for a in own_attrs if a] if slots else [])
        self.add(name, k, mro=[name] + mro, ps=ps, an=an, pr=pr, cv=cv, slots=slots,
                 slotvars=sv, slotseq=sv, imp=imp)
        self.src[name] = '\n'.join(lines)

    # -------------------------------------------------------------- output --
    def source(self):
        out = [PRELUDE]
        for n in self.order:
            out.append(self.src[n])
            out.append('CLS[%r] = %s' % (n, n))
            if n in self.c and not self.c[n]['imp']:
                out.append('del %s' % n)
            out.append('')
        return '\n'.join(out)

    def record(self):
        return dict(c=self.c, n=self.n, fn=self.fn, names=self.names, localoff=self.localoff,
                    zones=ZONES)


ZONES = ['Europe/Amsterdam', 'Asia/Tokyo', 'America/New_York', 'Asia/Kolkata', 'Etc/UTC', 'UTC']


# ------------------------------------------------------------------ decoding --
class SubStr(str):
    """A str of a class of the user's own; likewise for the classes below."""


class SubInt(int):
    pass


class SubFloat(float):
    pass


class SubList(list):
    pass


class SubDict(dict):
    pass


SUBS = {str: SubStr, int: SubInt, float: SubFloat, list: SubList, dict: SubDict}
SUBBED = {b: a for a, b in SUBS.items()}


class Ctx:
    """What is needed to convert between encodings and Python objects."""

    def __init__(self, mod):
        self.mod = mod
        self.ns = mod.__dict__ if mod else {}
        self.cls = self.ns.get('CLS', {})
        self.rev = {c: n for n, c in self.cls.items()
                    if isinstance(c, type)}
        self._types = {}
        self.subs = False    # decode built-in values into instances of subclasses

    def type(self, T, alt=False):
        key = (repr(T), alt)
        if key not in self._types:
            if T == NOT:
                self._types[key] = None
            else:
                # typing takes Unions with another order of the members for the same.
                import typing
                for f in typing._cleanups:
                    f()
                self._types[key] = eval(tsrc(T, alt), self.ns)
        return self._types[key]

    def dec(self, v):
        x = self.dec_(v)
        return SUBS[type(x)](x) if self.subs and type(x) in SUBS and v[0] != 'enum' else x

    def dec_(self, v):
        import decimal, pathlib, uuid, zoneinfo
        t = v[0]
        if t == 'none':
            return None
        if t in ('bool', 'int', 'str'):
            return v[1]
        if t == 'bigint':
            return int(v[1])
        if t == 'flt':
            return math.copysign(float('%d.%06d' % (v[2], v[3])), v[1])
        if t == 'xflt':
            return float(v[1])
        if t == 'list':
            return [self.dec(x) for x in v[1]]
        if t == 'tuple':
            return tuple(self.dec(x) for x in v[1])
        if t == 'set':
            return {self.dec(x) for x in v[1]}
        if t == 'fset':
            return frozenset(self.dec(x) for x in v[1])
        if t == 'deque':
            return collections.deque(self.dec(x) for x in v[1])
        if t == 'dict':
            return {self.dec(a): self.dec(b) for a, b in v[1]}
        if t == 'odict':
            return collections.OrderedDict((self.dec(a), self.dec(b)) for a, b in v[1])
        if t == 'ddict':
            return collections.defaultdict(None, {self.dec(a): self.dec(b) for a, b in v[1]})
        if t == 'obj':
            o = self.cls[v[1]].__new__(self.cls[v[1]])
            for a, x in v[2]:
                object.__setattr__(o, a, self.dec(x))
            return o
        if t == 'nt':
            return self.cls[v[1]](*[self.dec(x) for x in v[2]])
        if t == 'enum':
            return self.cls[v[1]][v[2]]
        if t == 'dt':
            if v[3].startswith('z:'):
                o = dtm.datetime(*v[1], tzinfo=zoneinfo.ZoneInfo(v[3][2:]))
                if o.utcoffset() != dtm.timedelta(minutes=v[2]):
                    o = o.replace(fold=1)
                if o.utcoffset() != dtm.timedelta(minutes=v[2]):
                    raise ValueError(v)
                return o
            return dtm.datetime(*v[1], tzinfo=tz_of(v[2], v[3]))
        if t == 'dtn':
            return dtm.datetime(*v[1])
        if t == 'date':
            return dtm.date(*v[1:4])
        if t == 'time':
            return dtm.time(*v[1:5])
        if t == 'td':
            return v[1] * dtm.timedelta(seconds=v[2], microseconds=v[3])
        if t == 'tz':
            off = dtm.timedelta(seconds=v[1])
            if v[1] == 0 and v[2] == 'UTC':
                return dtm.timezone.utc
            return dtm.timezone(off, v[2])
        if t == 'zi':
            return zoneinfo.ZoneInfo(v[1])
        if t == 'uuid':
            return uuid.UUID(v[1])
        if t == 'dec':
            return decimal.Decimal(v[1])
        if t == 'cplx':
            return complex(self.dec(v[1]), self.dec(v[2]))
        if t == 'path':
            return pathlib.Path(v[1])
        if t == 'type':
            return self.type(v[1])
        raise ValueError(v)

    # -------------------------------------------------------------- encoding --
    def enc(self, o, depth=0):
        import decimal, enum, pathlib, uuid, zoneinfo
        if depth > 40:
            return ['weird', 'deep']
        e = lambda x: self.enc(x, depth + 1)
        t = SUBBED.get(type(o), type(o))
        if o is None:
            return ['none']
        if t is bool:
            return ['bool', o]
        if t is int:
            return enc_int(o)
        if t is float:
            return enc_float(o)
        if t is str:
            if ' at 0x' in o:      # the address of an object in its text
                o = re.sub(r' at 0x[0-9a-f]+', ' at 0x', o)
            return ['str', o] if clean(o) else ['weird', 'text']
        if t in self.rev:
            n = self.rev[t]
            if isinstance(o, enum.Enum):
                return ['enum', n, o.name]
            if isinstance(o, tuple):
                return ['nt', n, [e(x) for x in o]]
            if isinstance(o, (dtm.datetime, str, int, float, dict, list)):
                return ['weird', t.__name__]
            attrs = []
            for c in reversed(t.__mro__):
                sl = c.__dict__.get('__slots__', ())
                for a in ((sl,) if isinstance(sl, str) else sl):
                    if a not in ('__weakref__', '__dict__') and hasattr(o, a) and not a.startswith('__'):
                        attrs.append([a, e(getattr(o, a))])
            for a, x in getattr(o, '__dict__', {}).items():
                attrs.append([a, e(x)])
            return ['obj', n, attrs]
        if t is list:
            return ['list', [e(x) for x in o]]
        if t is tuple:
            return ['tuple', [e(x) for x in o]]
        if t is set:
            return ['set', sorted((e(x) for x in o), key=repr)]
        if t is frozenset:
            return ['fset', sorted((e(x) for x in o), key=repr)]
        if t is collections.deque:
            return ['deque', [e(x) for x in o]]
        if t is dict:
            return ['dict', [[e(a), e(b)] for a, b in o.items()]]
        if t is collections.OrderedDict:
            return ['odict', [[e(a), e(b)] for a, b in o.items()]]
        if t is collections.defaultdict:
            return ['ddict', [[e(a), e(b)] for a, b in o.items()]]
        if t is dtm.datetime:
            f = [o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond]
            off = o.utcoffset()
            if off is None:
                return ['dtn', f]
            secs = off.days * 86400 + off.seconds
            if secs % 60 or off.microseconds:
                return ['weird', 'offset']
            m = secs // 60 if secs >= 0 else -((-secs) // 60)
            return ['dt', f, m, 'utc' if m == 0 and o.tzname() == 'UTC' else 'zero' if m == 0 else 'fixed']
        if t is dtm.date:
            return ['date', o.year, o.month, o.day]
        if t is dtm.time:
            if o.tzinfo is not None:
                return ['weird', 'time']
            return ['time', o.hour, o.minute, o.second, o.microsecond]
        if t is dtm.timedelta:
            us = (o.days * 86400 + o.seconds) * 10 ** 6 + o.microseconds
            s, u = divmod(abs(us), 10 ** 6)
            return ['td', -1 if us < 0 else 1, s, u] if s < 2 ** 31 else ['weird', 'td']
        if t is dtm.timezone:
            off = o.utcoffset(None)
            return ['tz', off.days * 86400 + off.seconds, o.tzname(None)]
        if t is zoneinfo.ZoneInfo:
            return ['zi', o.key]
        if t is uuid.UUID:
            return ['uuid', str(o)]
        if t is decimal.Decimal:
            return ['dec', str(o)]
        if t is complex:
            return ['cplx', enc_float(o.real), enc_float(o.imag)]
        if isinstance(o, pathlib.PurePath):
            return ['path', o.as_posix()]
        if isinstance(o, type):
            return ['weird', 'class']
        return ['weird', t.__name__]


def clean(s):
    try:
        s.encode('utf-8')
        return True
    except UnicodeError:
        return False


def enc_int(o):
    return ['int', o] if abs(o) < 10 ** 9 else ['bigint', str(o)]


def enc_float(o):
    if math.isfinite(o) and abs(o) < 1e9:
        s = -1 if math.copysign(1, o) < 0 else 1
        m = round(abs(o) * 1e6)
        w, u = divmod(m, 10 ** 6)
        if s * float('%d.%06d' % (w, u)) == o and not (o == 0 and s < 0):
            return ['flt', s, w, u]
    return ['xflt', repr(o)]


class CustomTz(dtm.tzinfo):
    """A time zone whose offset depends on the datetime."""

    def __init__(self, off):
        self.off = dtm.timedelta(minutes=off)

    def utcoffset(self, dt):
        return None if dt is None else self.off

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return None if dt is None else 'CUS'


def tz_of(off, kind):
    if kind == 'custom':
        return CustomTz(off)
    if kind == 'utc':
        return dtm.timezone.utc
    if kind == 'named':
        return dtm.timezone(dtm.timedelta(minutes=off), 'UTC')
    if kind == 'zero':
        return dtm.timezone(dtm.timedelta(0), 'ZERO')
    return dtm.timezone(dtm.timedelta(minutes=off))
