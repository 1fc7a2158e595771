"""Runs recorded sessions against the real jsons (imported from /repo).

usage: drv.py IN.json OUT.ndjson
IN: {"dir": scratch, "worlds": [{"mod", "rec"}], "sessions": [{"w", "evs", "fresh"}]}
OUT: one session per line with the observed outcomes filled in.
"""
import collections
import importlib
import json
import os
import re
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import jw          # noqa: E402
import ops         # noqa: E402


class Hang(BaseException):
    pass


def on_alarm(*_):
    raise Hang()


def run_session(sess, world, limit):
    import jsons
    mod = importlib.import_module(world['mod'])
    ctx = jw.Ctx(mod)
    run = ops.Runner(ctx, jsons, world)
    signal.signal(signal.SIGALRM, on_alarm)
    for ev in sess['evs']:
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            run.do(ev)
        except Hang:
            ev['out'] = {'t': 'hang', 'w': []}
        except ops.HarnessError:
            raise
        except BaseException as err:  # a failure of the harness itself
            ev['out'] = {'t': 'harness', 'w': [], 'm': ''.join(traceback.format_exception(err))[-1500:]}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return sess


def fresh_session(sess, world, limit):
    """Run the session in a child process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            s = run_session(sess, world, limit)
            data = json.dumps(s).encode()
        except BaseException as err:
            data = json.dumps({'crash': ''.join(traceback.format_exception(err))[-1500:]}).encode()
        with os.fdopen(w, 'wb') as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    s = json.loads(data) if data else {'crash': 'no output'}
    if 'crash' in s:
        for ev in sess['evs']:
            ev.setdefault('out', {'t': 'harness', 'w': [], 'm': s['crash']})
        return sess
    return s


def worker(inp, idx, n, out):
    limit = inp.get('limit', 10)
    with open(out, 'w') as f:
        for i, sess in enumerate(inp['sessions']):
            if i % n != idx:
                continue
            f.write('S %d\n' % i)
            f.flush()
            fn = fresh_session if sess.get('fresh') else run_session
            s = fn(sess, inp['worlds'][sess['w']], limit)
            f.write('R %d ' % i + json.dumps(s) + '\n')
        f.write('E\n')


def main():
    warnings.simplefilter('ignore')
    with open(sys.argv[1]) as f:
        inp = json.load(f)
    sys.path.insert(0, inp['dir'])
    sys.path.insert(0, inp.get('repo', '/repo'))
    sys.setrecursionlimit(3000)
    import jsons  # noqa: F401
    n = min(inp.get('procs', 8), max(1, len(inp['sessions'])))
    pids = []
    for i in range(n):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                worker(inp, i, n, sys.argv[2] + '.%d' % i)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    deadline = time.time() + inp.get('timeout', 240)
    left = set(pids)
    while left and time.time() < deadline:
        for p in list(left):
            q, st = os.waitpid(p, os.WNOHANG)
            if q:
                left.discard(p)
        time.sleep(.02)
    for p in left:
        try:
            os.killpg(p, signal.SIGKILL)
        except OSError:
            os.kill(p, signal.SIGKILL)
        os.waitpid(p, 0)
    done = {}
    stuck = set()
    for i in range(n):
        path = sys.argv[2] + '.%d' % i
        cur = None
        ended = False
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    if line.startswith('S '):
                        cur = int(line[2:])
                    elif line.startswith('R ') and line.endswith('\n'):
                        _, num, body = line.split(' ', 2)
                        done[int(num)] = body
                        cur = None
                    elif line == 'E\n':
                        ended = True
            os.unlink(path)
        if not ended and cur is not None:
            stuck.add(cur)
    with open(sys.argv[2], 'w') as f:
        for i, sess in enumerate(inp['sessions']):
            if i in done:
                f.write(done[i])
            elif i in stuck:
                # This session brought the process down or never came back.
                for ev in sess['evs']:
                    ev.setdefault('out', {'t': 'hang', 'w': []})
                f.write(json.dumps(sess) + '\n')
    print(json.dumps({'done': len(done), 'stuck': len(stuck), 'total': len(inp['sessions'])}))


if __name__ == '__main__':
    main()
