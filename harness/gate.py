"""Threads that run one at a time, in an order that is chosen beforehand.

The one that may run hands over at every switch point: when it starts another, when it waits for another, when
user code runs, and when it ends.  Whoever comes next is taken from the schedule, if it can run at all.
"""
import threading


class Stopped(BaseException):
    pass


class Sched:
    def __init__(self, choices, rnd=None):
        self.choices = list(choices)
        self.rnd = rnd      # decides once there are no choices left
        self.workers = []
        self.local = threading.local()
        self.hist = []
        self.stopped = False
        self.steps = 0

    def main(self):
        """The calling thread becomes number 0."""
        w = Worker(self, None, None)
        self.local.me = w
        return w

    def me(self):
        return getattr(self.local, 'me', None)

    def runnable(self):
        return [w for w in self.workers if not w.done and (w.waits is None or all(x.done for x in w.waits))]

    def switch(self):
        me = self.me()
        if me is None or self.stopped:
            return
        cand = self.runnable()
        if not cand:
            return
        nxt = None
        self.steps += 1
        if self.choices:
            c = self.choices.pop(0)
            nxt = next((w for w in cand if w.nr == c), None)
        elif self.rnd:
            nxt = self.rnd.choice(cand)
        if nxt is None:
            nxt = cand[0] if me not in cand else me
        if nxt is me:
            return
        nxt.sem.release()
        if not me.done:
            me.wait()


class Worker:
    def __init__(self, sched, target, thread):
        self.sched = sched
        self.nr = len(sched.workers)
        self.sem = threading.Semaphore(0)
        self.done = False
        self.waits = None
        self.target = target
        self.thread = thread
        sched.workers.append(self)

    def wait(self):
        self.sem.acquire()
        if self.sched.stopped:
            raise Stopped()

    def run(self):
        s = self.sched
        s.local.me = self
        try:
            self.wait()
            try:
                self.target()
            finally:
                self.done = True
        except Stopped:
            return
        s.hist.append(['end', self.nr])
        s.switch()

    def join(self, ws):
        self.waits = ws
        self.sched.switch()
        self.waits = None


def task_type(sched):
    """A type for tasks that are under control of the schedule."""
    class Task(threading.Thread):
        def start(self):
            me = sched.me()
            self.worker = Worker(sched, super().run, self)
            self.daemon = True
            sched.hist.append(['start', me.nr, self.worker.nr])
            super().start()
            sched.switch()

        def run(self):
            self.worker.run()

        def join(self, timeout=None):
            me = sched.me()
            me.join([self.worker])
            sched.hist.append(['join', me.nr, self.worker.nr])

        def is_alive(self):
            return not self.worker.done
    return Task


def stop(sched):
    """Let the threads that are left end (after a failure)."""
    sched.stopped = True
    for w in sched.workers:
        if not w.done:
            w.sem.release()
