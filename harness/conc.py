"""Calls that run at the same time, switching where user code runs or at given lines of jsons."""
import contextlib
import os
import random
import sys
import threading
import warnings

import gate


class ConcOps:
    inconc = None

    @contextlib.contextmanager
    def warned(self):
        """The warnings of this thread."""
        if self.inconc:
            self.local.ws = []
            yield self.local.ws
            return
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            yield ws

    @contextlib.contextmanager
    def quiet(self):
        """No switching here: the harness itself is at work."""
        self.local.quiet = True
        try:
            yield
        finally:
            self.local.quiet = False

    def here(self, f):
        """f, but with a possibility to switch."""
        if not self.inconc:
            return f

        def g(*args):
            self.inconc()
            return f(*args)
        return g

    def op_conc(self, ev):
        """thr: the events of every thread; one of them may consist of registrations.

        sched: who runs at the first switch points; seed: for what comes after that.
        every: 0, or the mean number of lines of jsons between two additional switch points.
        """
        rnd = random.Random(ev['seed'])
        sch = gate.Sched(ev['sched'], rnd)
        sch.main()
        free = ev.get('free', False)
        src = os.path.dirname(os.path.abspath(self.jsons.__file__)) + os.sep

        def switch():
            if not free and not getattr(self.local, 'quiet', False):
                sch.switch()

        def line(frame, what, arg):
            if what == 'line':
                self.local.left -= 1
                if self.local.left <= 0:
                    self.local.left = rnd.randint(1, 2 * ev['every'])
                    switch()
            return line

        def trace(frame, what, arg):
            return line if frame.f_code.co_filename.startswith(src) else None

        def target(evs):
            def run():
                self.local.left = 1
                self.local.quiet = False
                try:
                    for e in evs:
                        if ev['every'] and not free:
                            sys.settrace(trace)
                        try:
                            self.do(e)
                        finally:
                            sys.settrace(None)
                        switch()
                except BaseException as err:
                    sys.settrace(None)
                    if not isinstance(err, gate.Stopped):
                        failed.append(err)
                    raise
            return run
        failed = []
        self.inconc = switch
        self.hook = lambda name, obj, again: switch()
        self.ctx.ns['_HOOK'].append(switch)
        interval = sys.getswitchinterval()
        old = warnings.showwarning
        tt = threading.Thread if free else gate.task_type(sch)

        def show(message, category, *a, **kw):
            ws = getattr(self.local, 'ws', None)
            if ws is not None:
                ws.append(warnings.WarningMessage(message, category, '', 0))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('always')
                warnings.showwarning = show
                if free:
                    sys.setswitchinterval(1e-6)
                ts = [tt(target=target(evs), daemon=True) for evs in ev['thr']]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
        finally:
            sys.setswitchinterval(interval)
            warnings.showwarning = old
            self.inconc = self.hook = None
            del self.ctx.ns['_HOOK'][:]
            gate.stop(sch)
        if failed:
            raise failed[0]
        for evs in ev['thr']:
            for e in evs:
                if 'meanwhile' in e:
                    self.meanwhile[e['meanwhile']] = e['out']
        ev['out'] = {'t': 'ok', 'w': []}
        ev['steps'] = sch.steps
        ev['hist'] = [] if free else sch.hist + [['return']]
