"""The operations that go through another front end than dump and load."""
import asyncio
import json
import re

import jw
import gate

JD_HOOKS = {'str': str, 'float': float}


def plain(x, enc):
    """The text or bytes without the addresses that are in the repr of some objects."""
    if isinstance(x, bytes) and ' at 0x'.encode(enc)[-4:] in x:
        x = x.decode(enc)
    return re.sub(r' at 0x[0-9a-f]+', ' at 0x', x) if isinstance(x, str) else x


class FrontOps:
    # ---------------------------------------------------------- dumps, dumpb --
    def op_fdump(self, ev):
        """d: the outcome of dump; text: of json.dumps (and encode) thereof; out: of the front end."""
        jd = dict(ev['jd'])
        mode, enc = ev['mode'], ev.get('enc', 'utf-8')
        ev['d'], direct = self.call(self.fn_dump(ev))
        obj, kw = self.args
        ev['text'] = {'t': 'ok'}
        want = None
        if ev['d']['t'] == 'ok' and mode not in ('.json', '.dump'):
            def texted():
                s = json.dumps(direct, **jd)
                return s.encode(enc) if 'dumpb' in mode else s
            try:
                want = texted()
            except Exception as err:
                ev['text'] = {'t': 'err', 'k': type(err).__name__}
        obj = self.ctx.dec(ev['v'])      # a new one
        cls = self.ctx.type(ev['T'])
        kc = self.kwargs(ev['kc'], 'dump') if 'kc' in ev else kw
        if jd and mode not in ('.json', '.dump', 'str'):
            kc = dict(kc, jdkwargs=jd)
        if cls is not None and not ev.get('pos'):
            kc = dict(kc, cls=cls)
        j = self.jsons
        pos = []
        if ev.get('pos'):
            # everything by position
            kc = dict(kc)
            pos = [kc.pop('jdkwargs', None), cls]
        ext = {'encoding': enc} if enc != 'utf-8' or ev.get('encgiven') else {}
        f = {
            'dumps': lambda: j.dumps(obj, *pos, **kc),
            'dumpb': lambda: j.dumpb(obj, enc, *pos, **kc) if pos else j.dumpb(obj, **ext, **kc),
            '.json': lambda: obj.json,
            'str': lambda: str(obj),
            '.dump': lambda: obj.dump(**kc),
            '.dumps': lambda: obj.dumps(**kc),
            '.dumpb': lambda: obj.dumpb(**ext, **kc),
        }[mode]
        if ev.get('warm'):
            self.warm(obj, f)
        ev['out'], res = self.unchanged(ev, [jd, obj, kc], lambda: self.call_raw(f))
        if mode in ('.json', '.dump'):
            ev['same'] = ev['out']['t'] == 'ok' and ev['d']['t'] == 'ok' \
                and self.ctx.enc(res) == self.ctx.enc(direct)
        else:
            ev['same'] = ev['out']['t'] == 'ok' and type(res) is type(want) and plain(res, enc) == plain(want, enc)

    def unchanged(self, ev, given, f):
        """f(), while what was given to it is watched."""
        def state():
            return [[(a, repr(type(b)) if callable(b) or not isinstance(b, (dict, list, set)) else repr(b))
                     for a, b in x.items()] if type(x) is dict else self.ctx.enc(x) for x in given]
        before = state()
        res = f()
        ev['mut'] = state() != before
        return res

    def call_raw(self, f):
        """Like call, without the value."""
        box = []
        out, _ = self.call(lambda: box.append(f()))
        return out, (box[0] if box else None)

    # ---------------------------------------------------------- loads, loadb --
    def op_fload(self, ev):
        jd = {a: JD_HOOKS.get(b, b) for a, b in ev['jd'].items()}
        mode, enc = ev['mode'], ev.get('enc', 'utf-8')
        j = self.jsons
        ev['bad'], ev['posok'] = '', True
        text = ev['txt'] if 'txt' in ev else json.dumps(self.ctx.dec(ev['j']), **ev.get('form', {}))
        given, std = text, None
        cls = self.load_type(ev)
        kw = self.kwargs(ev['k'], 'load')
        if 'loadb' in mode:
            w = ev.get('given', 'bytes')
            given = {'bytes': lambda: text.encode(enc, 'replace'), 'str': lambda: text,
                     'bytearray': lambda: bytearray(text.encode()), 'none': lambda: None,
                     'obj': lambda: self.ctx.dec(ev['j']),
                     'undecodable': lambda: text.encode(enc, 'replace') + b'\xff\xfe\xfd'}[w]()
            if w not in ('bytes', 'undecodable'):
                ev['bad'] = 'bytes'
            else:
                try:
                    text = given.decode(enc)
                except UnicodeDecodeError:
                    ev['bad'] = 'bytes'
        obj = None
        if mode in ('.from_json', '.load'):
            obj = given = self.ctx.dec(ev['j'])
        elif not ev['bad']:
            try:
                obj = json.loads(text, **jd)
            except json.JSONDecodeError as err:
                ev['bad'], std = 'json', err
        ev['d'] = {'t': 'none', 'w': []}
        if not ev['bad']:
            ev['j'] = self.ctx.enc(obj)
            ev['d'], _ = self.call(lambda: j.load(obj, cls, **kw) if cls is not None else j.load(obj, **kw))
            obj = json.loads(text, **jd) if mode not in ('.from_json', '.load') else self.ctx.dec(ev['j'])
        kc = dict(self.kwargs(ev['kc'], 'load') if 'kc' in ev else kw)
        if jd and mode not in ('.from_json', '.load'):
            kc['jdkwargs'] = jd
        ext = {'encoding': enc} if enc != 'utf-8' or ev.get('encgiven') else {}
        pos = []
        if ev.get('pos'):
            pos = [kc.pop('jdkwargs', None)]
        f = {
            'loads': lambda: j.loads(given, cls, *pos, **kc) if cls is not None or pos else j.loads(given, **kc),
            'loadb': lambda: (j.loadb(given, cls, enc, *pos, **kc) if pos else
                              j.loadb(given, cls, **ext, **kc) if cls is not None else j.loadb(given, **ext, **kc)),
            '.from_json': lambda: cls.from_json(obj, **kc),
            '.load': lambda: cls.load(obj, **kc),
            '.loads': lambda: cls.loads(given, **kc),
            '.loadb': lambda: cls.loadb(given, **ext, **kc),
        }[mode]
        err = []

        def watch():
            try:
                return f()
            except Exception as e:
                err.append(e)
                raise
        ev['out'], _ = self.unchanged(ev, [jd, obj, kc], lambda: self.call(watch))
        if ev['bad'] and err:
            e = err[0]
            ev['posok'] = getattr(e, 'target', 0) is cls
            if ev['bad'] == 'bytes':
                ev['posok'] = ev['posok'] and getattr(e, 'source', 0) is given
            else:
                ev['posok'] = ev['posok'] and e.source == text and \
                    [getattr(e, a, 0) for a in ('pos', 'doc', 'lineno', 'colno')] == \
                    [getattr(std, a) for a in ('pos', 'doc', 'lineno', 'colno')]

    # -------------------------------------------------------------- transform --
    def op_transform(self, ev):
        ev['d'], direct = self.call(self.fn_dump(ev))
        kw1 = self.args[1]
        obj = self.ctx.dec(ev['v'])
        cls, cls2 = self.ctx.type(ev['T']), self.load_type(ev)
        kw = dict(self.kwargs(ev['k2'], 'load'))
        got = []
        m = ev['mapper']

        def mapper(x):
            got.append(self.ctx.enc(x))
            if m == 'boom':
                raise Boom()
            if m == 'const':
                return self.ctx.dec(ev['mj'])
            if m == 'drop' and isinstance(x, dict) and x:
                del x[sorted(x, key=repr)[0]]
            if m == 'drop' and isinstance(x, list) and x:
                x.pop()
            if m == 'wrap':
                return [x]
            return x
        if m != 'none':
            kw['mapper'] = mapper
        if cls is not None:
            kw['dump_cls'] = cls
        if kw1:
            kw['dump_kwargs'] = kw1
        if ev.get('pos'):
            kw['dump_args'] = []
        if ev.get('emptykw'):
            kw.setdefault('dump_kwargs', {})
            kw1 = kw['dump_kwargs']
        ev['out'], _ = self.unchanged(ev, [kw1, kw, obj], lambda: self.call(
            lambda: self.jsons.transform(obj, cls2, **kw)))
        ev['mapped'], ev['j'] = True, ['none']
        ev['boom'] = m == 'boom'
        if ev['d']['t'] == 'ok':
            ev['mapped'] = m == 'none' or got == [ev['d']['v']]
            x = direct
            if m == 'const':
                x = self.ctx.dec(ev['mj'])
            elif m == 'drop' and isinstance(x, dict) and x:
                x = {a: b for a, b in x.items() if a != sorted(x, key=repr)[0]}
            elif m == 'drop' and isinstance(x, list) and x:
                x = x[:-1]
            elif m == 'wrap':
                x = [x]
            ev['j'] = self.ctx.enc(x)
        else:
            ev['mapped'] = not got


    # ------------------------------------------------------------- decorators --
    def deco_of(self, dir_, pm, rv, k, mapper):
        from jsons.decorators import loaded, dumped
        j = self.jsons
        kw = dict(self.kwargs(k, 'load' if dir_ == 'loaded' else 'dump'))
        if pm is not None:
            kw['parameters'] = pm
        if rv is not None:
            kw['returnvalue'] = rv
        if mapper not in ('', 'load', 'dump'):
            kw['loader' if dir_ == 'loaded' else 'dumper'] = getattr(j, mapper)
        return (loaded if dir_ == 'loaded' else dumped)(**kw)

    def op_deco(self, ev):
        fid = ev.get('fid')
        had = fid is not None and fid in self.decos
        pm, rv, dir_ = ev['pm'], ev['rv'], ev['dir']
        rdir, text, sty = ev.get('rdir', dir_), ev['mapper'][4:], ev['style']
        short = ev.get('short')      # leave out what has the default value
        decos = []
        if 'rdir' in ev:
            decos = [] if had else [self.deco_of(dir_, None if short else True, False, ev['k'], ev['mapper']),
                     self.deco_of(rdir, False, None if short else True, ev['rk'], '')]
            if ev.get('swap'):
                decos.reverse()
            rtext = ''
        else:
            decos = [] if had else [self.deco_of(dir_, None if short and pm else pm, None if short and rv else rv, ev['k'],
                                  ev['mapper'])]
            rtext = text
        got, box = [], []
        cell = self.decos[fid] if had else {}
        cell.update(ev=ev, box=box)

        def to_text(x, t):
            s = json.dumps(x)
            return s.encode() if t == 'b' else s

        def body(l):
            cell['box'].append(l)
            if cell['ev']['body'][0] == 'boom':
                raise Boom()
            x = self.ctx.dec(cell['ev']['body'][1])
            return to_text(x, rtext) if rv and rtext and rdir == 'loaded' else x

        # the function
        parts, state = [], ''
        for name, T, kind, default in ev['sig']:
            if kind != 'po' and state == 'po':
                parts.append('/')
            if kind == 'k' and state not in ('va', 'k'):
                parts.append('*')
            state = kind
            ann = '' if T == ['notype'] else ': ' + (repr(jw.tsrc(T)) if ev.get('fwd') else jw.tsrc(T))
            parts.append({'va': '*', 'vk': '**'}.get(kind, '') + name + ann +
                         ('' if default[0] == 'req' else ' = DEFAULTS[%r]' % name))
        if state == 'po':
            parts.append('/')
        ret = '' if ev['ret'] == ['notype'] and not ev.get('retnone') else ' -> ' + (
            repr(jw.tsrc(ev['ret'])) if ev.get('fwd') else jw.tsrc(ev['ret']))
        first = {'method': ['self'], 'class': ['cls']}.get(sty, [])
        fname = ev.get('fname', 'func')
        defs = cell['defs'] if had else {n: self.ctx.dec(d[1]) for n, _, _, d in ev['sig'] if d[0] == 'val'}
        ns = {'BODY': body, 'DEFAULTS': defs, 'DECOS': decos, 'asyncio': asyncio}
        lines = ['def %s(%s)%s:' % (fname, ', '.join(first + parts), ret)]
        if ev['isasync']:
            lines = ['async ' + lines[0], '    await asyncio.sleep(0)']
        lines.append('    return BODY(locals())')
        lines = ['@DECOS[%d]' % i for i in range(len(decos))] + lines
        if sty in ('class', 'static'):
            lines.insert(0, '@classmethod' if sty == 'class' else '@staticmethod')
        if sty != 'func':
            lines = ['class Holder:'] + ['    ' + x for x in lines]
            if fname.startswith('__'):
                lines += ['    %s = %s' % ('pub', fname)] if sty != 'method' else \
                    ['    def pub(self, *a, **k):', '        return self.%s(*a, **k)' % fname]
        g = dict(self.ctx.ns, **ns)
        inst = None

        def run():
            nonlocal inst
            if had:
                f, inst = cell['f'], cell['inst']
            else:
                exec('\n'.join(lines), g)
                f = g.get(fname)
                if sty != 'func':
                    inst = g['Holder'] if sty == 'class' or (sty == 'static' and ev.get('oncls')) else g['Holder']()
                    f = getattr(inst, 'pub' if fname.startswith('__') else fname)
                if fid is not None:
                    cell.update(f=f, inst=inst, defs=defs)
                    self.decos[fid] = cell

            def arg(v):
                x = self.ctx.dec(v)
                return to_text(x, text) if pm and text and dir_ == 'loaded' else x
            pos, kw = [arg(v) for v in ev['pos']], {n: arg(v) for n, v in ev['kw']}
            before = [self.ctx.enc(x) for x in pos + list(kw.values())]
            given.append((before, pos, kw))
            res = f(*pos, **kw)
            if ev['isasync']:
                async def main():
                    return await res
                res = asyncio.run(main())
            if rv and rtext and rdir == 'dumped':
                if type(res) is not (bytes if rtext == 'b' else str):
                    raise TypeError('no text')
                res = json.loads(res)
            return res
        given = []
        ev['out'], _ = self.call(run)
        for before, pos, kw in given:
            ev['mut'] = before != [self.ctx.enc(x) for x in pos + list(kw.values())]
        ev['called'] = len(box) == 1
        if len(box) > 1:
            ev['called'], box = True, []
        seen = dict(box[0]) if box else {}
        kinds = {n: k for n, _, k, _ in ev['sig']}
        count = {n: 0 for n, k in kinds.items() if k in ('va', 'vk')}
        for name, T, v in ev['args']:
            base, _, sub = name.partition('/')
            try:
                x = seen[base]
                if sub:
                    x = x[int(sub)] if kinds[base] == 'va' else x[sub]
                    count[base] += 1
                if name in first:
                    got.append([name, ['bool', x is inst]])
                    continue
                if T == ['asis'] and name in defs:
                    got.append([name, self.ctx.enc(x) if x is defs[name] else ['weird', 'another object']])
                    continue
                if pm and text and dir_ == 'dumped' and T != ['asis']:
                    x = json.loads(x) if type(x) is (bytes if text == 'b' else str) else TypeError
                got.append([name, self.ctx.enc(x)])
            except Exception as err:
                got.append([name, ['weird', type(err).__name__]])
        for n, c in count.items():
            if len(seen.get(n, ())) != c:
                got.append([n, ['weird', 'number of arguments']])
        ev['got'] = got

    def op_decobad(self, ev):
        from jsons.decorators import loaded, dumped
        d = loaded if ev['dir'] == 'loaded' else dumped
        kw = self.kwargs(ev['k'], 'load' if ev['dir'] == 'loaded' else 'dump')
        j = self.jsons

        def run():
            w = ev['what']
            if w in ('loader', 'dumper'):
                x = {'json': json.loads, 'other': j.dump if w == 'loader' else j.load, 'none': None,
                     'lambda': lambda *a, **k: None, 'transform': j.transform, 'str': 'load'}[ev['which']]
                return (loaded if w == 'loader' else dumped)(**{w: x}, **kw)

            def f(x: int) -> int:
                return x
            return d(**kw)({'static': staticmethod(f), 'classmethod': classmethod(f),
                            'class': type('C', (), {}), 'builtin': int}[w])
        ev['out'], _ = self.call_raw(run)


    # ------------------------------------------------------------------ tasks --
    def op_tasks(self, ev):
        """Load or dump with tasks; ids: the values whose processing is counted."""
        import os
        import tempfile
        import threading
        mode = ev['mode']
        ev['calls'], ev['hist'] = [], []
        sch = None
        if mode == 'gate':
            sch = gate.Sched(ev['sched'])
            sch.main()
            self.tasktype = gate.task_type(sch)
        else:
            self.tasktype = threading.Thread if mode == 'thread' else \
                (False if ev.get('short') else __import__('multiprocessing').Process)
            if ev.get('tsub') and self.tasktype:
                self.tasktype = type('MyTask', (type('Base', (self.tasktype,), {}),), {})
        fd, path = tempfile.mkstemp()
        lock = threading.Lock()

        def hook(name, obj, again):
            e = self.ctx.enc(obj)
            if e in ev['ids'] and not again:
                nr = ev['ids'].index(e)
                if mode == 'process':
                    os.write(fd, b'%d\n' % nr)
                else:
                    with lock:
                        ev['calls'].append(nr)
                        if sch:
                            sch.hist.append(['elem', getattr(sch.me(), 'nr', 0), nr + 1])
            if sch:
                sch.switch()
        self.hook = hook
        try:
            f = self.fn_dump(ev) if ev['dir'] == 'dump' else self.fn_load(ev)
            ev['out'], _ = self.call(f)
        finally:
            self.hook = self.tasktype = None
            if sch:
                gate.stop(sch)
            with open(fd, 'rb', closefd=False) as fl:
                fl.seek(0)
                if mode == 'process':
                    ev['calls'] = [int(x) for x in fl.read().split()]
            os.close(fd)
            os.unlink(path)
        if sch:
            sch.hist.append(['return'])
            ev['hist'] = sch.hist
            ev['steps'] = sch.steps


class Boom(Exception):
    """The failure of a user's function."""
