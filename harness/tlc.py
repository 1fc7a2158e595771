"""Runs TLC on the trace specification and on the model-checking configurations."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    pass


def run(module, cfg, env=None, workers=8, timeout=600, heap='6g', extra=()):
    """Run TLC, return (stdout, stats)."""
    meta = tempfile.mkdtemp(prefix='jwtlc')
    cmd = ['java', '-XX:+UseParallelGC', '-Xss256m', '-Xmx' + heap, '-cp', JARS,
           '-Dtlc2.TLC.stopAfter=%d' % timeout, 'tlc2.TLC', '-metadir', meta, '-workers', str(workers),
           '-noGenerateSpecTE', '-config', cfg, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout + 60, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        raise TLCError('TLC timed out')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
    stats = dict(generated=int(m[-1][0]), distinct=int(m[-1][1]), left=int(m[-1][2])) if m else None
    return out, stats, p.returncode


def prints(out, tag):
    """The JSON of everything that was printed with PrintT(ToJson(<<tag, ..>>))."""
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"[\\"%s\\"' % tag) and line.endswith('"'):
            res.append(json.loads(json.loads(line.replace('\\u0000', ''))))
    return res


def _walk_names(x, found):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'dict' and isinstance(x[1], list):
            for p in x[1]:
                if isinstance(p, list) and len(p) == 2 and p[0] == ['str', '-meta']:
                    _all_strings(p[1], found)
        for y in x:
            _walk_names(y, found)


def _all_strings(x, found):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'str' and isinstance(x[1], str):
            found.add(x[1])
        else:
            for y in x:
                _all_strings(y, found)


_PLAIN = {'datetime.timezone': ['timezone'], 'zoneinfo.ZoneInfo': ['zoneinfo'], 'complex': ['complex'],
          'typing.Dict': ['Dict'], 'typing.List': ['List'], 'typing.Tuple': ['Tuple'], 'NoneType': ['nonetype'],
          'typing.Any': ['any'], 'typish._types.Unknown': ['any'],
          'jsons.classes.json_serializable.JsonSerializable': ['object'], 'datetime.datetime': ['datetime'], 'datetime.date': ['date'],
          'datetime.time': ['time'], 'datetime.timedelta': ['timedelta'], 'uuid.UUID': ['uuid'],
          'decimal.Decimal': ['decimal'], 'collections.deque': ['deque'], 'collections.OrderedDict': ['odict'],
          'collections.defaultdict': ['defaultdict'], 'pathlib.Path': ['path'], 'pathlib.PosixPath': ['path'],
          'pathlib.PurePath': ['path']}
_BUILTIN = ('int', 'str', 'float', 'bool', 'list', 'dict', 'tuple', 'set', 'object', 'frozenset')


def parse_name(s, rec):
    """The type that a class name in a -meta stands for, None if there is none."""
    s = s.strip()
    if '[' not in s:
        if s in _PLAIN:
            return _PLAIN[s]
        if s in _BUILTIN:
            return [s]
        for n, c in rec['c'].items():
            if s == c['mod'] + '.' + n:
                return ['cls', n]
        return None
    if not s.endswith(']'):
        return None
    origin, inner = s.split('[', 1)
    inner = inner[:-1]
    parts, depth, cur = [], 0, ''
    for ch in inner:
        depth += (ch == '[') - (ch == ']')
        if ch == ',' and depth == 0:
            parts.append(cur)
            cur = ''
        else:
            cur += ch
    parts.append(cur)
    parts = [p.strip() for p in parts]
    if origin == 'typing.Tuple':
        if parts == ['()']:
            return ['tuplen', []]
        if parts[-1] == '...':
            t = parse_name(parts[0], rec)
            return t and ['tuplee', t]
        ts = [parse_name(p, rec) for p in parts]
        return None if None in ts else ['tuplen', ts]
    tag = {'typing.List': 'list', 'typing.Dict': 'dict', 'typing.Set': 'set', 'typing.FrozenSet': 'frozenset',
           'typing.Deque': 'deque', 'typing.DefaultDict': 'defaultdict', 'typing.OrderedDict': 'odict'}.get(origin)
    ts = [parse_name(p, rec) for p in parts]
    if tag is None or None in ts:
        return None
    return [tag] + ts


def prepare(worlds, sessions, d):
    """Write the files that Trace.tla reads; returns the environment."""
    names = [set() for _ in worlds]
    for s in sessions:
        for ev in s['evs']:
            for e in [ev] + [x for t in ev.get("thr", []) for x in t]:
                for f in ('j', 'v'):
                    if f in e:
                        _walk_names(e[f], names[s['w']])
                for f in ('T', 'T2'):
                    if e.get(f, [''])[0] == 'name':
                        names[s['w']].add(e[f][1])
    wf, tf = os.path.join(d, 'worlds.ndjson'), os.path.join(d, 'trace.ndjson')
    with open(wf, 'w') as f:
        for w, ns in zip(worlds, names):
            rec = dict(w['rec'])
            tab = [[n, parse_name(n, rec)] for n in sorted(ns)]
            rec['names'] = [t for t in tab if t[1]]
            # Names of classes that cannot be imported are up to the announcements.
            hidden = {c['mod'] + '.' + n for n, c in rec['c'].items() if not c['imp']}
            rec['odd'] = [t[0] for t in rec['names'] if '[' in t[0] and any(h in t[0] for h in hidden)]
            rec['names'] = [t for t in rec['names'] if t[0] not in hidden and t[0] not in rec['odd']]
            f.write(json.dumps(rec) + '\n')
    with open(tf, 'w') as f:
        for s in sessions:
            f.write(json.dumps(dict(s, w=s['w'] + 1)) + '\n')
    return {'JW_WORLDS': wf, 'JW_TRACE': tf}
