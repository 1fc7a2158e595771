"""Common parts of the checks: scratch worlds, driving, validating, reporting."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
REPO = os.environ.get('JW_REPO', '/repo')
sys.path.insert(0, HERE)
import tlc  # noqa: E402


class MachineryError(Exception):
    pass


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.worlds, self.sessions = [], []
        self.dir = tempfile.mkdtemp(prefix='jw_%s_' % pid)
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.cov = dict(states=0, transitions=0, events=0, skipped=0, sessions=0, ok=0, err=0, mc={})
        self.samples = []
        self.level = 'model_checking'

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # ------------------------------------------------------------- building --
    def add_world(self, w):
        self.worlds.append({'mod': w.mod, 'rec': w.record(), 'src': w.source()})
        return len(self.worlds) - 1

    def session(self, w, evs, fresh=False, **kw):
        self.sessions.append(dict(w=w, evs=evs, fresh=fresh, **kw))

    # -------------------------------------------------------------- driving --
    def drive(self, env=None, timeout=240, procs=8, limit=10):
        for w in self.worlds:
            with open(os.path.join(self.dir, w['mod'] + '.py'), 'w') as f:
                f.write(w['src'])
        inp, out = os.path.join(self.dir, 'in.json'), os.path.join(self.dir, 'out.ndjson')
        with open(inp, 'w') as f:
            json.dump(dict(dir=self.dir, repo=REPO, procs=procs, timeout=timeout, limit=limit,
                           worlds=[{'mod': w['mod'], 'rec': w['rec']} for w in self.worlds],
                           sessions=self.sessions), f)
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC',
                 PYTHONWARNINGS='ignore')
        e.pop('PYTHONPATH', None)
        e.update(env or {})
        p = subprocess.run([PY, os.path.join(HERE, 'drv.py'), inp, out], env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=timeout + 120)
        if p.returncode != 0:
            # The code under test cannot even be imported, or the driver is broken.
            self.import_failure(p.stderr)
            return []
        with open(out) as f:
            res = [json.loads(line) for line in f]
        if len(res) != len(self.sessions):
            raise MachineryError('driver lost sessions: %d of %d\n%s' % (len(res), len(self.sessions), p.stderr[-3000:]))
        for s in res:
            for ev in s['evs']:
                if ev.get('out', {}).get('t') == 'harness':
                    raise MachineryError('harness failure: %s\n%s' % (json.dumps(ev)[:600], ev['out'].get('m')))
        return res

    def import_failure(self, stderr):
        p = subprocess.run([PY, '-c', 'import sys; sys.path.insert(0, %r); import jsons' % REPO],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            self.violation('jsons cannot be imported', {'stderr': p.stdout[-2000:]})
        else:
            raise MachineryError('driver failed:\n' + stderr[-3000:])

    # ----------------------------------------------------------- validating --
    def validate(self, sessions, batch=20000, module='Trace.tla', cfg='Trace.cfg', env=None):
        """Let TLC judge every event; registers the violations."""
        cur, n, batches = [], 0, []
        for s in sessions:
            cur.append(s)
            n += len(s['evs']) + 1
            if n >= batch:
                batches.append(cur)
                cur, n = [], 0
        if cur:
            batches.append(cur)
        for b in batches:
            self._validate(b, module, cfg, env or {})

    def _validate(self, sessions, module, cfg, env):
        d = tempfile.mkdtemp(prefix='b', dir=self.dir)
        env = dict(tlc.prepare(self.worlds, sessions, d), JW_PROP=self.pid, **env)
        out, stats, rc = tlc.run(module, cfg, env)
        fails = tlc.prints(out, 'JWFAIL')
        skips = tlc.prints(out, 'JWSKIP')
        if stats is None or 'Error:' in out or stats['left']:
            raise MachineryError('TLC failed:\n' + out[max(0, out.find('Error:')):][:2500])
        expect = sum(len(s['evs']) + 1 for s in sessions)
        if not fails and stats['distinct'] != expect:
            raise MachineryError('TLC visited %s states, not %s' % (stats, expect))
        self.cov['states'] += stats['distinct']
        self.cov['transitions'] += stats['distinct'] - len(sessions)
        self.cov['events'] += sum(len(s['evs']) for s in sessions)
        self.cov['sessions'] += len(sessions)
        self.cov['skipped'] += len({(x[1], x[2]) for x in skips})
        for s in sessions:
            for ev in s['evs']:
                t = ev.get('out', {}).get('t')
                if t in ('ok', 'err'):
                    self.cov[t] += 1
        seen = set()
        for _, i, l, clause, exp in fails:
            if (i, l) in seen:
                continue
            seen.add((i, l))
            s = sessions[i - 1]
            if clause == 'harness-failure':
                raise MachineryError('harness failure in ' + json.dumps(s['evs'][l - 1])[:800])
            self.violation(clause, dict(world=self.worlds[s['w']], session=dict(s, evs=s['evs'][:l]),
                                        event=s['evs'][l - 1], expected=exp))
        if not self.samples:
            for s in sessions[:200:40]:
                self.samples.append(json.dumps(s['evs'][0])[:300])
        shutil.rmtree(d, ignore_errors=True)

    def violation(self, clause, detail):
        self.violations.append((clause, detail))

    def model_check(self, module, cfg, env=None, **kw):
        """Run TLC on a model of the specification itself."""
        e = dict(JW_OUT=self.dir)
        e.update(env or {})
        out, stats, rc = tlc.run(module, cfg, e, **kw)
        if stats is None or stats['left'] or 'Error:' in out or rc != 0:
            raise MachineryError('model checking of %s failed:\n%s' % (cfg, out[-4000:]))
        self.cov['mc'][cfg] = stats
        self.cov['states'] += stats['distinct']
        self.cov['transitions'] += stats['generated']
        return out

    # ------------------------------------------------------------ reporting --
    def findings(self):
        """The committed findings of this property: finding: property=Cxx id=<id> <text>"""
        res = {}
        with open(os.path.join(VERIF, 'known-findings.txt')) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', line)
                if m and m.group(1) == self.pid:
                    res[m.group(2)] = m.group(3)
        return res

    def finish(self, coverage, assumptions):
        rdir = os.path.join(VERIF, 'replay')
        lines, code = [], 0
        real = []
        found = self.findings()
        for clause, detail in self.violations:
            # A session that shows one specific finding carries its id, and the clause.
            mark = detail.get('session', {}).get('finding')
            if mark and mark[0] in found and mark[1] == clause:
                if found[mark[0]] not in self.known:
                    self.known.append(found[mark[0]])
            else:
                real.append((clause, detail))
        for t in self.known:
            lines.append('KNOWN-FINDING: property=%s %s' % (self.pid, t))
        if real:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s_%s_%d.json' % (self.pid, self.tier, self.seed))
            with open(path, 'w') as f:
                json.dump([dict(clause=c, **d) for c, d in real[:20]], f, indent=1)
            for c, d in real[:3]:
                ev = d.get('event')
                lines.append('  clause %s: %s' % (c, json.dumps(ev if ev else d)[:700]))
                if 'expected' in d:
                    lines.append('    expected %s' % json.dumps(d['expected'])[:400])
            lines.append('VIOLATION property=%s replay=%s' % (self.pid, path))
            code = 1
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(coverage, states=self.cov['states'], transitions=self.cov['transitions'],
                                traces_validated_against_impl=self.cov['sessions'],
                                samples=self.samples[:6], events_judged=self.cov['events'],
                                events_left_open=self.cov['skipped'],
                                events_with_value=self.cov['ok'], events_with_error=self.cov['err'],
                                specification_model_checking=self.cov['mc'],
                                replayed_from_the_specification=getattr(self, 'bounded', [])),
                  wall_s=round(time.time() - self.t0, 2), assumptions=assumptions,
                  violations=len(real))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        print('%s %s: %d sessions, %d events (%d left open), %d violations, %.1f s' % (
            self.pid, self.tier, self.cov['sessions'], self.cov['events'], self.cov['skipped'], len(real),
            time.time() - self.t0))
        for x in lines:
            print(x)
        return code
