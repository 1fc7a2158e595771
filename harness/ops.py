"""The operations of a session, applied to the real jsons."""
import collections
import datetime as dtm
import enum
import json
import re
import threading
import typing
import warnings

import jw
from conc import ConcOps
from front import FrontOps
from jw import NOT


class HarnessError(Exception):
    pass


KT = {
    'upper': lambda s: s.upper(),
    'lower': lambda s: s.lower(),
    'prefix': lambda s: 'p_' + s,
    'unprefix': lambda s: s[2:] if s.startswith('p_') else s,
}
NATIVE = (dict, list, str, int, float, bool, type(None))
_ORIGINS = {'list': 'list', 'set': 'set', 'frozenset': 'frozenset', 'deque': 'deque', 'dict': 'dict',
            'defaultdict': 'defaultdict', 'OrderedDict': 'odict', 'Iterable': 'iter', 'Sequence': 'seq',
            'Mapping': 'mapping'}


class Explained(Exception):
    """An error of which the reason is not its first argument."""

    def __str__(self):
        return self.args[1]


def is_native(x):
    """Only exactly the JSON-native Python types, at every depth."""
    if jw.SUBBED.get(type(x), type(x)) not in NATIVE:
        return False
    if type(x) is dict:
        return all(jw.SUBBED.get(type(k), type(k)) in (str, int, float, bool, type(None)) and is_native(v) for k, v in x.items())
    if type(x) is list:
        return all(map(is_native, x))
    return True


def shallow(x):
    if isinstance(x, (list, tuple, set, frozenset)):
        return (type(x).__name__, list(x))
    if isinstance(x, dict):
        return [(a, b) for a, b in x.items()]
    return repr(type(x))


def mutables(o, acc=None, depth=0):
    """id -> object of everything that can be changed and is reachable from o."""
    import collections
    import enum
    acc = {} if acc is None else acc
    if depth > 30 or id(o) in acc:
        return acc
    if isinstance(o, (list, set, collections.deque)):
        acc[id(o)] = o
        for x in o:
            mutables(x, acc, depth + 1)
    elif isinstance(o, dict):
        acc[id(o)] = o
        for a, b in o.items():
            mutables(a, acc, depth + 1)
            mutables(b, acc, depth + 1)
    elif isinstance(o, (tuple, frozenset)):
        for x in o:
            mutables(x, acc, depth + 1)
    elif isinstance(o, (type, enum.Enum)) or type(o).__module__ in ('builtins', 'datetime', 'uuid', 'decimal',
                                                                    'zoneinfo', 'pathlib', 'functools'):
        pass
    else:
        if not callable(o):
            acc[id(o)] = o
        for x in getattr(o, '__dict__', {}).values():
            mutables(x, acc, depth + 1)
        for c in type(o).__mro__:
            sl = c.__dict__.get('__slots__', ())
            for a in ((sl,) if isinstance(sl, str) else sl):
                if not a.startswith('__') and hasattr(o, a):
                    mutables(getattr(o, a), acc, depth + 1)
    return acc


class Runner(FrontOps, ConcOps):
    def __init__(self, ctx, jsons, world):
        self.ctx = ctx
        self.jsons = jsons
        self.world = world
        self.forks = {1: None}
        self.fns = {}
        self.local = threading.local()
        self.meanwhile = {}   # outcomes of registrations that were done during other calls
        self.results = []     # of earlier calls, for as long as the session lasts
        self.decos = {}       # decorated functions
        self.args = None      # the arguments of the last call
        self.tasktype = None  # the type of tasks to use; False: the default
        self.hook = None      # called whenever a custom function runs

    # ------------------------------------------------------------- encoding --
    def enc_type(self, t):
        if t is None:
            return NOT
        if t in self.ctx.rev:
            return ['cls', self.ctx.rev[t]]
        if isinstance(t, str):
            return ['name', t]
        if isinstance(t, typing.NewType):
            return ['newtype', t.__name__]
        o, args = typing.get_origin(t), typing.get_args(t)
        if o is typing.Union:
            return ['union', [self.enc_type(a) for a in args]]
        if o is tuple:
            if t is typing.Tuple:
                return ['Tuple']
            if len(args) == 2 and args[1] is ...:
                return ['tuplee', self.enc_type(args[0])]
            return ['tuplen', [self.enc_type(a) for a in args]]
        if o is not None and args:
            return [_ORIGINS.get(o.__name__, o.__name__)] + [self.enc_type(a) for a in args]
        for k, src in jw.SIMPLE.items():
            if k == 'notype':
                continue
            x = self.ctx.type([k])
            if x is t:
                return [k]
        return ['other']

    def enc_err(self, err):
        j = self.jsons
        out = {'t': 'err', 'k': type(err).__name__, 'jsons': isinstance(err, j.JsonsError),
               'deser': isinstance(err, j.DeserializationError), 'a': '', 's': ['none'], 'g': NOT,
               'i': [], 'm': '', 'w': []}
        out['fam'] = [c.__name__ for c in type(err).__mro__]
        out['said'] = 'custom failure' in str(err)      # (the reason that a custom function gives)
        if out['jsons']:
            m = getattr(err, 'message', None)
            out['m'] = m if isinstance(m, str) and jw.clean(m) else '?'
            a = getattr(err, 'argument', None)
            out['a'] = a if isinstance(a, str) and jw.clean(a) else ''
            if out['deser']:
                out['s'] = self.ctx.enc(err.source)
                out['g'] = self.enc_type(err.target) if not isinstance(err.target, dict) else ['other']
            out['i'] = [int(x) for x in re.findall(r'index\D{0,3}(\d+)', out['m'])]
        return out

    def call(self, f):
        """The outcome of f() and its result."""
        with self.warned() as ws:
            res, err = None, None
            try:
                res = f()
            except Exception as err_:
                err = err_
            with self.quiet():
                out = {'t': 'ok', 'v': self.ctx.enc(res), 'w': []} if err is None else self.enc_err(err)
        out['w'] = self.codes(ws)
        return out, res

    @staticmethod
    def codes(ws):
        result = []
        for w in ws:
            m = re.search(r'suppress_warning\(([^)]*)\)', str(w.message))
            if m:
                result.append(m.group(1).strip('\'"'))
        return result

    # -------------------------------------------------------------- options --
    def kt(self, name):
        if not name:
            return None
        j = self.jsons
        return {'camel': j.KEY_TRANSFORMER_CAMELCASE, 'snake': j.KEY_TRANSFORMER_SNAKECASE,
                'pascal': j.KEY_TRANSFORMER_PASCALCASE, 'lisp': j.KEY_TRANSFORMER_LISPCASE}.get(name) or KT[name]

    def kwargs(self, k, op):
        j = self.jsons
        kw = {}
        if k.get('strict'):
            kw['strict'] = True
        if k.get('kt'):
            kw['key_transformer'] = self.here(self.kt(k['kt']))
        if k.get('enumname', 'default') != 'default':
            kw['use_enum_name'] = k['enumname'] == 'yes'
        if k.get('fork', 1) != 1:
            kw['fork_inst'] = self.forks[k['fork']]
        if k.get('xtra', ['none']) != ['none']:
            kw['xtra'] = self.ctx.dec(k['xtra'])
        if op == 'dump':
            for a, b in (('nulls', 'strip_nulls'), ('priv', 'strip_privates'), ('props', 'strip_properties'),
                         ('cvars', 'strip_class_variables'), ('usec', 'strip_microseconds')):
                if k.get(a):
                    kw[b] = True
            if k.get('attrs'):
                form = k.get('attrsform', 'tuple')
                kw['strip_attr'] = (k['attrs'][0] if form == 'str' and len(k['attrs']) == 1 else
                                    {'list': list, 'set': set, 'frozenset': frozenset,
                                     'gen': lambda x: {a: 1 for a in x}.keys()}.get(form, tuple)(k['attrs']))
            if k.get('verb'):
                v = set(k['verb'])
                kw['verbose'] = (j.Verbosity.WITH_EVERYTHING if v == {'class', 'time'}
                                 else j.Verbosity.WITH_CLASS_INFO if v == {'class'}
                                 else j.Verbosity.WITH_DUMP_TIME)
                if v == {'class', 'time'} and k.get('verbform') == 'bool':
                    kw['verbose'] = True
            if k.get('types'):
                kw['types'] = {n: self.ctx.type(T) for n, T in k['types']}
        else:
            if k.get('warn'):
                kw['warn_on_fail'] = True
            if k.get('getters'):
                kw['attr_getters'] = {n: self.here(lambda x=x: self.ctx.dec(x)) for n, x in k['getters']}
            if k.get('tasks', 1) != 1 and self.tasktype is None:
                import threading
                kw['tasks'] = k['tasks']
                kw['task_type'] = threading.Thread
        if self.tasktype is not None:
            kw['tasks'] = k['tasks']
            if self.tasktype:
                kw['task_type'] = self.tasktype
        return kw

    # ----------------------------------------------------- custom functions --
    def fork_id(self, fork_inst):
        best = 1
        for i, f in self.forks.items():
            if f is fork_inst:
                return i
            if f is not None and isinstance(fork_inst, type) and issubclass(fork_inst, f) \
                    and (best == 1 or issubclass(f, self.forks[best])):
                best = i
        return best

    def tname(self, T):
        """TName of Codec."""
        if T[0] in ('cls', 'newtype'):
            return T[1]
        return 'typing.' + T[0] if len(T) > 1 else T[0]

    def fn(self, name):
        if name not in self.fns:
            b = self.world['rec']['fn'][name]
            kind = name[0]
            self.fns[name] = {'s': self.make_ser, 'd': self.make_des, 'v': self.make_val}[kind](name, b)
        return self.fns[name]

    def ran(self, name, obj, again=False):
        if self.hook:
            self.hook(name, obj, again)

    def member(self, obj, attr):
        if type(obj) not in self.ctx.rev or isinstance(obj, (tuple, enum.Enum)):
            raise AttributeError(attr)      # a number may have an attribute real, a dict has items
        return getattr(obj, attr)

    def make_ser(self, name, b):
        jsons, run = self.jsons, self
        simple = ('int', 'str', 'bool', 'flt', 'none')

        def ser(obj, cls=None, *, strict=False, fork_inst=None, xtra=None, **kwargs):
            run.ran(name, obj)
            if b[0] == 'const':
                return run.ctx.dec(b[1])
            if b[0] == 'tag':
                e = run.ctx.enc(obj)
                T = run.enc_type(cls)
                return {'f': b[1], 'c': '' if T == NOT else run.tname(T),
                        'v': obj if e[0] in simple else e[0], 's': strict,
                        'k': run.fork_id(fork_inst), 'x': xtra}
            all_ = dict(kwargs, strict=strict, xtra=xtra)
            if fork_inst is not None:
                all_['fork_inst'] = fork_inst
            if b[0] == 'dele':
                v = jsons.dump(run.member(obj, b[2]), **all_)
                run.ran(name, obj, True)
                return {'f': b[1], 'd': v}
            if b[0] == 'nest':
                v = jsons.dump(run.member(obj, b[2]), **run.kwargs(b[3], 'dump'))
                run.ran(name, obj, True)
                return {'f': b[1], 'd': v}
            if b[0] == 'str':
                return b[1]
            if b[0] == 'super':
                return jsons.default_object_serializer(obj, cls, **all_)
            if b[0] == 'raise':
                raise OSError(2, 'custom failure') if sum(map(ord, name)) % 2 else ValueError('custom failure')
            raise HarnessError(b)
        return ser

    def make_des(self, name, b):
        jsons, run = self.jsons, self

        def des(obj, cls=None, *, strict=False, fork_inst=None, xtra=None, **kwargs):
            run.ran(name, obj)
            if b[0] == 'const':
                return run.ctx.dec(b[1])
            if b[0] == 'tag':
                return ('D:' + b[1], obj, run.tname(run.enc_type(cls)), strict, run.fork_id(fork_inst), xtra)
            all_ = dict(kwargs, strict=strict, xtra=xtra)
            if fork_inst is not None:
                all_['fork_inst'] = fork_inst
            if b[0] == 'dele':
                v = jsons.load(obj, run.ctx.type(b[2]), **all_)
                run.ran(name, obj, True)
                return ('D:' + b[1], v)
            if b[0] == 'nest':
                v = jsons.load(obj, run.ctx.type(b[2]), **run.kwargs(b[3], 'load'))
                run.ran(name, obj, True)
                return ('D:' + b[1], v)
            if b[0] == 'super':
                return jsons.default_object_deserializer(obj, cls, **all_)
            if b[0] == 'raise':
                raise ValueError('custom failure')
            raise HarnessError(b)
        return des

    def make_val(self, name, b):
        run = self

        def val(obj):
            run.ran(name, obj)
            k = b[0]
            if k == 'true':
                return True
            if k == 'false':
                return False
            if k == 'noneret':
                return None
            if k == 'raise':
                raise ValueError(b[1]) if sum(map(ord, name)) % 2 else Explained(42, b[1])
            if k == 'raise0':
                raise ValueError
            if k == 'min':
                return obj >= b[1]
            if k == 'attrmin':
                return getattr(obj, b[1]) >= b[2]
            if k == 'inst':
                return isinstance(obj, run.ctx.cls[b[1]])
            if k == 'tag':
                return run.ctx.enc(obj)[0] == b[1]
            raise HarnessError(b)
        return val

    # -------------------------------------------------------- registrations --
    def reg(self, ev, f):
        if ev.get('meanwhile') in self.meanwhile:
            ev['out'] = self.meanwhile[ev['meanwhile']]
            return
        ev['out'], res = self.call(f)
        if ev['out']['t'] == 'ok':
            ev['out'] = {'t': 'ok', 'w': []}
        return res

    def fork_kw(self, f):
        return {} if f == 1 else {'fork_inst': self.forks[f]}

    def holder(self, f):
        return self.jsons.JsonSerializable if f == 1 else self.forks[f]

    def types(self, Ts, one):
        ts = [self.ctx.type(T) for T in Ts]
        return ts[0] if len(ts) == 1 and one else ts

    def op_setser(self, ev):
        self.set_lizer(ev, 'serializer')

    def op_setdes(self, ev):
        self.set_lizer(ev, 'deserializer')

    def set_lizer(self, ev, what):
        fn, ts = self.fn(ev['fn']), self.types(ev['Ts'], not ev.get('aslist'))
        if ev.get('via') == 'cls' and hasattr(self.holder(ev['f']), 'set_' + what):
            m = getattr(self.holder(ev['f']), 'set_' + what)
            res = self.reg(ev, lambda: m(fn, ts, ev['hi'], bool(ev.get('nf'))))
            if ev.get('nf'):
                self.forks[len(self.forks) + 1] = res
            return
        if ev.get('nf'):
            raise HarnessError('nf')
        m = getattr(self.jsons, 'set_' + what)
        if ev['hi'] and ev.get('defaults'):
            self.reg(ev, lambda: m(fn, ts, **self.fork_kw(ev['f'])))
        else:
            self.reg(ev, lambda: m(fn, ts, ev['hi'], **self.fork_kw(ev['f'])))

    def op_setval(self, ev):
        fn, ts = self.fn(ev['fn']), self.types(ev['Ts'], not ev.get('aslist'))
        self.reg(ev, lambda: self.jsons.set_validator(fn, ts, **self.fork_kw(ev['f'])))

    def op_fork(self, ev):
        f = ev['f']
        if ev.get('via') == 'world':      # made when the world was: the class is, or inherits from, the fork
            res = self.reg(ev, lambda: self.ctx.cls[ev['cls']])
        else:
            name = {'name': 'Named'} if (len(self.forks) + f) % 2 else {}
            if ev.get('via') == 'cls' and hasattr(self.holder(f), 'fork'):
                res = self.reg(ev, lambda: self.holder(f).fork(**name))
            else:
                args = [self.forks[f]] if f != 1 else []
                res = self.reg(ev, lambda: self.jsons.fork(*args, **name))
        self.forks[len(self.forks) + 1] = res

    def op_announce(self, ev):
        args = (self.ctx.type(ev['T']),) + ((ev['name'],) if ev['name'] else ())
        self.reg(ev, lambda: self.jsons.announce_class(*args, **self.fork_kw(ev.get('f', 1))))

    def op_suppress(self, ev):
        self.reg(ev, lambda: self.jsons.suppress_warnings(ev['val'], **self.fork_kw(ev['f'])))

    def op_suppresscode(self, ev):
        self.reg(ev, lambda: self.jsons.suppress_warning(ev['code'], **self.fork_kw(ev['f'])))

    def op_which(self, ev):
        g = {'ser': self.jsons.get_serializer, 'des': self.jsons.get_deserializer,
             'val': self.jsons.get_validator}[ev['kind']]
        T = self.ctx.type(ev['T'])
        ev['out'], res = self.call(lambda: g(T, *([self.forks[ev['f']]] if ev['f'] != 1 else [])))
        if ev['out']['t'] == 'ok':
            name = next((n for n, f in self.fns.items() if f is res), '')
            ev['out']['v'] = ['str', name]

    def op_validate(self, ev):
        v, T = self.ctx.dec(ev['v']), self.ctx.type(ev['T'])
        ev['out'], _ = self.call(lambda: self.jsons.validate(v, T, **self.fork_kw(ev['f'])))

    def op_kt(self, ev):
        ev['out'], _ = self.call(lambda: self.kt(ev['kt'])(ev['s']))

    # ----------------------------------------------------------- operations --
    def do(self, ev):
        if 'tz' in ev:
            import os
            import time
            os.environ['TZ'] = ev['tz']
            time.tzset()
        getattr(self, 'op_' + ev['op'])(ev)

    def dec(self, ev, part):
        self.ctx.subs = ev.get('subs', False)
        obj = self.ctx.dec(ev[part])
        self.ctx.subs = False
        return obj

    def fn_dump(self, ev, k=None):
        kw = self.kwargs(k or ev['k'], 'dump')
        cls = self.ctx.type(ev['T'], ev.get('alt', False))
        obj = self.dec(ev, 'v')
        self.args = (obj, kw)
        return lambda: self.jsons.dump(obj, cls, **kw) if cls is not None else self.jsons.dump(obj, **kw)

    def load_type(self, ev):
        T = ev.get('T2') or ev['T']
        return T[1] if T[0] == 'name' else self.ctx.type(T, ev.get('alt', False))

    def fn_load(self, ev, js=None):
        kw = self.kwargs(ev.get('k2') or ev['k'], 'load')
        cls = self.load_type(ev)
        obj = self.dec(ev, 'j') if js is None else js
        self.args = (obj, kw)
        return lambda: self.jsons.load(obj, cls, **kw) if cls is not None else self.jsons.load(obj, **kw)

    def watched(self, ev, f):
        """The outcome of f(), while its arguments (self.args) and the earlier results are watched."""
        if not ev.get('watch'):
            return self.call(f)
        obj, kw = self.args
        before = self.ctx.enc(obj), {a: shallow(x) for a, x in kw.items()}, mutables(obj)
        out, res = self.call(f)
        ev['mut'] = (self.ctx.enc(obj), {a: shallow(x) for a, x in kw.items()}) != before[:2] \
            or not set(mutables(obj)) == set(before[2])
        got = mutables(res)
        ins = set(before[2])
        for x in kw.values():
            ins |= set(mutables(x))
        ev['shared'] = bool(ins & set(got))
        ev['stale'] = any(set(old) & set(got) - ins for old, _ in self.results)
        self.results.append((got, (res, obj, kw)))
        return out, res

    def warm(self, obj, f):
        """Call f while obj, the very object that is going to be used, is something else."""
        if type(obj) is list:
            saved, change, restore = list(obj), obj.clear, obj.extend
        elif type(obj) is dict:
            saved, change, restore = dict(obj), obj.clear, obj.update
        elif type(obj) in self.ctx.cls.values() and type(getattr(obj, '__dict__', None)) is dict:
            saved, restore = dict(vars(obj)), vars(obj).update
            change = lambda: vars(obj).update({a: 0 for a in saved})    # noqa: E731
        else:
            return
        change()
        self.call(f)
        restore(saved)

    def op_dump(self, ev):
        f = self.fn_dump(ev)
        if ev.get('warm'):
            self.warm(self.args[0], f)
        ev['out'], res = self.watched(ev, f)
        ev['native'] = True
        if ev['out']['t'] == 'ok':
            ev['native'] = is_native(res)
            if ev['native']:
                try:
                    json.dumps(res)
                except Exception:
                    ev['native'] = False

    def op_load(self, ev):
        f = self.fn_load(ev)
        if ev.get('warm'):
            self.warm(self.args[0], f)
        ev['out'], res = self.watched(ev, f)
        self.factory(ev, res)

    def factory(self, ev, res):
        """Note what a defaultdict makes of missing keys."""
        if type(res) is collections.defaultdict:
            T = self.enc_type(res.default_factory)
            if 'other' not in json.dumps(T) and not ev.get('alt'):
                ev['factory'] = T

    def op_rt(self, ev):
        """Round trip: dump v as T, (through text,) load as T2."""
        ev['d'], res = self.call(self.fn_dump(ev))
        ev['d']['w'] = []
        if ev['d']['t'] != 'ok':
            ev['out'] = {'t': 'none', 'w': []}
            return
        if ev.get('text'):
            try:
                res = json.loads(json.dumps(res))
            except Exception as err:
                ev['out'] = self.enc_err(err)
                return
            ev['j'] = self.ctx.enc(res)
        else:
            ev['j'] = ev['d']['v']
        if ' at 0x' in json.dumps(ev['j']):    # load it without the address as well
            res = self.ctx.dec(ev['j'])
        ev['out'], res = self.watched(ev, self.fn_load(ev, res))
        self.factory(ev, res)
