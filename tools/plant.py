"""Tries a planted bug: python3 tools/plant.py SPEC.py [id ...]

SPEC.py holds a list BUGS of dicts: id, prop, edits [(file, old, new)], demo
(python source), needs, breaks, and optionally checks (further properties whose
checks are to be run). The bug is kept under /verif/seeded/<id> if it applies,
the stable tests still pass and the demo tells both trees apart. Whether a check
catches it is printed, and recorded in tools/seeded_results.json.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
# run with cwd = the repository
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def tests(copy, work):
    env = dict(os.environ, TZ='UTC', LC_ALL='C.UTF-8', PYTHONHASHSEED='0',
               PYTHONNOUSERSITE='1', PYTHONDONTWRITEBYTECODE='1',
               PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    rep = os.path.join(work, 'report.xml')
    out = os.path.join(work, 'out.json')
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p',
                    'pytest_timeout', '--timeout=300',
                    '--continue-on-collection-errors',
                    '--doctest-glob=README.md', '-o', 'junit_family=xunit2',
                    '--junitxml=' + rep, '--ignore=tests/test_performance.py',
                    'tests', 'README.md'], cwd=copy, env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run([PY, '/opt/vp/results.py', out, 'junit:' + rep],
                   stdout=subprocess.DEVNULL)
    got = set(json.load(open(out))['passed'])
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(want - got)


def demo(copy, folder):
    p = subprocess.run(['bash', os.path.join(folder, 'demo.sh')], cwd=copy,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=300)
    return p.returncode, p.stdout.decode(errors='replace')[-300:]


def check(copy, prop):
    env = dict(os.environ, JW_REPO=copy, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
    p = subprocess.run(['python3', os.path.join(VERIF, 'harness/check.py'),
                        prop, 'quick'], cwd=VERIF, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    txt = p.stdout.decode(errors='replace')
    if 'VIOLATION property=' + prop in txt and p.returncode == 1:
        return 'caught', ''
    if p.returncode == 0:
        return 'missed', ''
    return 'broken', txt[-600:]


def plant(bug, work):
    bid = bug['id']
    copy = os.path.join(work, bid)
    shutil.copytree('/repo', copy, symlinks=True)
    folder = os.path.join(work, 'f_' + bid)
    os.makedirs(folder)
    with open(os.path.join(folder, 'demo.py'), 'w') as f:
        f.write(bug['demo'].lstrip('\n'))
    with open(os.path.join(folder, 'demo.sh'), 'w') as f:
        f.write(SH)
    rc, out = demo(copy, folder)
    if rc:
        return bid, 'DEMO FAILS UNPATCHED ' + out
    for path, old, new in bug['edits']:
        p = os.path.join(copy, 'jsons', path)
        src = open(p).read()
        if src.count(old) != 1:
            return bid, 'EDIT MATCHES %d times: %r' % (src.count(old), old)
        with open(p, 'w') as f:
            f.write(src.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=copy, stdout=subprocess.PIPE).stdout
    rc, out = demo(copy, folder)
    if not rc:
        return bid, 'DEMO PASSES PATCHED'
    missing = tests(copy, work)
    if missing:
        return bid, 'TESTS FAIL %s' % missing[:4]
    with open(os.path.join(folder, 'patch.diff'), 'wb') as f:
        f.write(diff)
    with open(os.path.join(folder, 'meta.json'), 'w') as f:
        json.dump({'property': bug['prop'], 'needs': bug['needs'],
                   'what_it_breaks': bug['breaks']}, f, indent=1)
    dest = os.path.join(VERIF, 'seeded', bid)
    shutil.rmtree(dest, ignore_errors=True)
    shutil.copytree(folder, dest)
    res = {}
    for prop in [bug['prop']] + bug.get('checks', []):
        res[prop], note = check(copy, prop)
        if note:
            res[prop] += ' ' + note
    record(bid, bug['prop'], res)
    shutil.rmtree(copy)
    return bid, json.dumps(res)


def record(bid, prop, res):
    path = os.path.join(VERIF, 'tools', 'seeded_results.json')
    try:
        data = json.load(open(path))
    except FileNotFoundError:
        data = {}
    data[bid] = {'property': prop, 'checks': {k: v[:40] for k, v in res.items()}}
    with open(path, 'w') as f:
        json.dump(data, f, indent=1, sort_keys=True)


def recheck(bid, work, extra):
    """Run the check on a bug that was planted already."""
    folder = os.path.join(VERIF, 'seeded', bid)
    copy = os.path.join(work, bid)
    shutil.copytree('/repo', copy, symlinks=True)
    subprocess.run(['git', 'apply', os.path.join(folder, 'patch.diff')],
                   cwd=copy, check=True)
    prop = json.load(open(os.path.join(folder, 'meta.json')))['property']
    res = {}
    for p in [prop] + extra:
        res[p], note = check(copy, p)
        if note:
            res[p] += ' ' + note
    record(bid, prop, res)
    shutil.rmtree(copy)
    return bid, json.dumps(res)


def main():
    work = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    try:
        if sys.argv[1] == 'recheck':
            ids = sys.argv[2:] or sorted(
                d for d in os.listdir(os.path.join(VERIF, 'seeded'))
                if os.path.isdir(os.path.join(VERIF, 'seeded', d)))
            for bid in ids:
                print(*recheck(bid, work, []), flush=True)
            return
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        for bug in ns['BUGS']:
            if sys.argv[2:] and bug['id'] not in sys.argv[2:]:
                continue
            print(*plant(bug, work), flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    main()
