"""Background generator queue: the consumer sees the items of the generator under every schedule"""
import threading as real
from types import SimpleNamespace as NS
from symx.harness import harness
from hyperion.utils import queues as Q


class Stopped(BaseException):
    pass


class Sched(object):
    """runs one thread at a time; at every operation on a shared object the next one is the one that the schedule tells, afterwards in turns"""
    LIMIT = 400

    def __init__(self, bits, first=0):
        self.bits, self.n, self.first, self.abort = list(bits), 0, first, None
        self.threads = [self.task(None)]
        self.cur = self.threads[0]
        self.last = 0

    def task(self, fn):
        return NS(sem=real.Semaphore(0), done=False, cond=None, error=None, fn=fn, thread=None)

    def pick(self):
        run = [t for t in self.threads if not t.done and (t.cond is None or t.cond())]
        if not run:
            return None
        k = self.n - self.first
        b = self.bits[k] if 0 <= k < len(self.bits) else self.n
        self.n += 1
        return run[b % len(run)]

    def point(self):
        me = self.cur
        if self.n > self.LIMIT and self.abort is None:
            self.abort = 'no progress'
        nxt = self.threads[0] if self.abort else self.pick()
        if nxt is None:
            self.abort, nxt = 'deadlock', self.threads[0]
        self.switch(me, nxt)

    def switch(self, me, nxt):
        if nxt is not me:
            self.cur = nxt
            nxt.sem.release()
            me.sem.acquire()
        if self.abort:
            raise Stopped(self.abort)

    def start(self, fn):
        t = self.task(fn)

        def body():
            t.sem.acquire()
            try:
                if not self.abort:
                    t.fn()
            except Stopped:
                pass
            except BaseException as e:
                t.error = e
            t.done = True
            if self.abort:
                return
            nxt = self.pick()
            if nxt is None:
                self.abort, nxt = 'deadlock', self.threads[0]
            self.cur = nxt
            nxt.sem.release()
        t.thread = real.Thread(target=body, daemon=True)
        self.threads.append(t)
        t.thread.start()
        return t

    def wait(self, cond):
        self.cur.cond = cond
        self.point()
        self.threads[self.threads.index(self.cur)].cond = None

    def finish(self):
        """ends the threads that are left"""
        self.abort = self.abort or 'end'
        for t in self.threads[1:]:
            if not t.done:
                t.sem.release()
                t.thread.join(5)


def modules(s, log):
    class Event(object):
        def __init__(self):
            self.v = False

        def is_set(self):
            s.point()
            return self.v

        def set(self):
            s.point()
            self.v = True

    class Queue(object):
        def __init__(self, maxsize=0):
            self.q, self.m = [], maxsize

        def qsize(self):
            s.point()
            return len(self.q)

        def empty(self):
            s.point()
            return not self.q

        def full(self):
            s.point()
            return 0 < self.m <= len(self.q)

        def put(self, x, block=True, timeout=None):
            s.point()
            if 0 < self.m <= len(self.q):
                s.wait(lambda: len(self.q) < self.m)
            self.q.append(x)
            log.append(len(self.q))

        def get(self, block=True, timeout=None):
            s.point()
            if not self.q:
                s.wait(lambda: bool(self.q))
            return self.q.pop(0)
        put_nowait, get_nowait = put, get

    class Thread(object):
        def __init__(self, target=None, args=(), kwargs=None, **k):
            self.f, self.t, self.daemon = (lambda: target(*args, **(kwargs or {}))), None, False

        def start(self):
            self.t = s.start(self.f)
            s.point()

        def is_alive(self):
            s.point()
            return self.t is not None and not self.t.done

        def join(self, timeout=None):
            s.wait(lambda: self.t.done)

    return dict(threading=NS(Thread=Thread, Event=Event, Lock=real.Lock, RLock=real.RLock), queue=NS(Queue=Queue), time=NS(sleep=lambda t: s.point()))


class world(object):
    """the module of the queues with threads that follow a schedule"""
    def __init__(self, E, steps, first=0):
        self.s = Sched([E.choice('s%d' % i, 2) for i in range(steps)], first)
        self.sizes = []
        self.new = modules(self.s, self.sizes)

    def __enter__(self):
        self.old = {k: Q.__dict__[k] for k in self.new}
        Q.__dict__.update(self.new)
        return self

    def __exit__(self, t, e, tb):
        self.s.finish()
        Q.__dict__.update(self.old)
        if t is Stopped:
            raise AssertionError('the queue stopped working: %s' % e)


class Source(object):
    """endless iterator over given items, then numbers; fails at one position"""
    def __init__(self, s, items, fail=None):
        self.s, self.items, self.i, self.fail, self.off = s, items, 0, fail, False
        self.late = 0

    def __iter__(self):
        return self

    def __next__(self):
        i = self.i
        self.i += 1
        self.late += self.off
        self.s.point()
        if i == self.fail:
            raise ValueError('broken')
        return self.items[i] if i < len(self.items) else 100 + i


def items(E, n):
    x = E.real('x', (n,), lo=-4, hi=4)
    return [None if E.bool('none%d' % i) else x[i] for i in range(n)]


@harness('P37', configs=[dict(m=m, first=f) for m in (1, 2, 3) for f in (0, 7, 14)], thorough=[dict(m=m, first=f, steps=11) for m in (1, 2, 3) for f in (0, 5, 10, 15, 20)],
         bounds='one worker, 2 items that may be nothing, queues of 1 to 3, every schedule of 8 operations on shared objects in a row, starting at the first, eighth or fifteenth (11 in the thorough run), in turns otherwise')
def ordered(E, m, first, steps=8):
    """one worker: the items, without empty ones, in their order, the queue never longer than asked; after stop nothing is taken"""
    x = items(E, 2)
    with world(E, steps, first) as w:
        src = Source(w.s, x)
        q = Q.GeneratorQueue(src)
        E.claim('not running yet', not q.is_running())
        q.start(workers=1, max_queue_size=m)
        E.claim('running', bool(q.is_running()))
        g = q.get()
        got = [next(g) for _ in range(3)]
        q.stop()
        E.claim('stopped', not q.is_running())
        E.claim('worker ended', all(t.done for t in w.s.threads[1:]))
        n = src.i
        E.claim('worker without error', all(t.error is None for t in w.s.threads[1:]))
        E.claim('no more items', next(g, None) is None)
    E.reach()
    want = ([v for v in x if v is not None] + [100 + i for i in range(2, 8)])[:3]
    for i in range(3):
        E.eq('item %d' % i, got[i], want[i])
    E.claim('size', max(w.sizes) <= m)
    E.claim('nothing taken after stop', src.i == n)


@harness('P37', configs=[dict(k=k, first=f) for k in (0, 1, 2) for f in (0, 7)], thorough=[dict(k=k, first=f, steps=11) for k in (0, 1, 2) for f in (0, 5, 10)],
         bounds='one worker, the generator fails at item 0 to 2, queue of 2, every schedule of 8 operations in a row')
def failure(E, k, first, steps=8):
    """a generator that fails ends the stream: what was delivered is a prefix of its items, and the consumer does not wait for ever"""
    x = items(E, 2)
    with world(E, steps, first) as w:
        q = Q.GeneratorQueue(Source(w.s, x, k))
        q.start(workers=1, max_queue_size=2)
        got = list(q.get())
        E.claim('not running', not q.is_running())
        q.stop()
        E.claim('worker ended', all(t.done for t in w.s.threads[1:]))
        E.claim('error of the generator', isinstance(w.s.threads[1].error, ValueError))
    E.reach()
    want = [v for v in x[:k] if v is not None]
    E.claim('prefix', len(got) <= len(want))
    for i, g in enumerate(got):
        E.eq('item %d' % i, g, want[i])


@harness('P37', configs=[dict(m=m, first=f) for m in (1, 2) for f in (0, 7, 14)], thorough=[dict(m=m, first=f, steps=11) for m in (1, 2) for f in (0, 6, 12, 18, 24)],
         bounds='two workers on an iterator that allows it, queues of 1 and 2, every schedule of 8 operations in a row')
def two_workers(E, m, first, steps=8):
    """two workers: every item is delivered at most once, all of the first ones arrive, and the queue exceeds its size by one at most"""
    with world(E, steps, first) as w:
        src = Source(w.s, [])
        q = Q.GeneratorQueue(src)
        q.start(workers=2, max_queue_size=m)
        g = q.get()
        got = [next(g) for _ in range(4)]
        q.stop()
        E.claim('workers ended', all(t.done for t in w.s.threads[1:]) and len(w.s.threads) == 3)
        n = src.i
    E.reach()
    E.claim('once', len(set(got)) == 4)
    E.claim('items', all(100 <= v < 100 + n for v in got))
    E.claim('size', max(w.sizes) <= m + 1)


@harness('P37', configs=[{}], bounds='two runs, one worker, every schedule of the first 8 operations')
def restart(E):
    """a queue that was stopped can be started again and continues with the next items of the generator"""
    with world(E, 8) as w:
        src = Source(w.s, [])
        q = Q.GeneratorQueue(src)
        q.start(workers=1, max_queue_size=1)
        a = next(q.get())
        q.stop()
        n = src.i
        q.start(workers=1, max_queue_size=1)
        b = next(q.get())
        q.stop()
        q.stop()
    E.reach()
    E.claim('first', a == 100)
    E.claim('second', b == 100 + n)
