"""Coroutines that really suspend: each coroutine body is interpreted on its own host thread, one thread running at a time.

Semantics modelled: tornado 4.5 gen.coroutine / Runner.  A yield of a future that is already resolved continues at once; a yield
of an unresolved one suspends the coroutine until a callback of the IOLoop resumes it in an iteration after the future resolves."""
import gc
import threading

threading.stack_size(192 * 1024 * 1024)


class Killed(BaseException):
    pass


class Worker(object):
    idle = []

    def __init__(self):
        # z3 is not thread safe: only one thread may run at a time.  Collecting garbage in a thread that has just handed over would
        # break that, so it is done between paths only (collect)
        gc.disable()
        self.go, self.back = threading.Lock(), threading.Lock()
        self.go.acquire()
        self.back.acquire()
        self.job = None
        t = threading.Thread(target=self.loop, daemon=True)
        t.start()

    def loop(self):
        while True:
            self.go.acquire()
            job = self.job
            job.outcome = None
            try:
                job.fn()
            except Killed:
                pass
            except BaseException as e:
                job.error = e
            job.done = True
            self.job = None
            self.back.release()


class Coro(object):
    """fn() is run on a worker thread by resume(); inside it, suspend() gives control back to the last resumer."""
    current = None
    alive = []

    def __init__(self, ip, fn):
        self.ip, self.fn = ip, fn
        self.done = self.kill = False
        self.error = None
        self.worker = None
        self.stack, self.depth = [], 0

    def resume(self):
        ip = self.ip
        if self.worker is None:
            self.worker = Worker.idle.pop() if Worker.idle else Worker()
            self.worker.job = self
            Coro.alive.append(self)
        saved = (Coro.current, ip.exc_stack, ip.depth)
        Coro.current, ip.exc_stack, ip.depth = self, self.stack, self.depth
        self.worker.go.release()
        self.worker.back.acquire()
        self.stack, self.depth = ip.exc_stack, ip.depth
        Coro.current, ip.exc_stack, ip.depth = saved
        if self.done:
            Coro.alive.remove(self)
            Worker.idle.append(self.worker)
            e, self.error = self.error, None
            if e is not None and not self.kill:
                raise e

    def suspend(self):
        self.worker.back.release()
        self.worker.go.acquire()
        if self.kill:
            raise Killed()

    @staticmethod
    def kill_all():
        """End every suspended coroutine (the path is over)."""
        for c in list(Coro.alive):
            if c in Coro.alive and not c.done:
                c.kill = True
                c.resume()


paths = 0


def collect():
    """Between paths."""
    global paths
    if not gc.isenabled():
        paths += 1
        if paths % 40 == 0:
            gc.collect()
