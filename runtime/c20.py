"""C20 executable contract: events, states and combinators under random operations, many waiters, real futures, virtual time."""
from net import *      # noqa
from katcp import core
from tornado import gen
from tornado.concurrent import Future as TFuture

RULE = 'random operation sequences with any number of waiters, deadlines and waiters that react; random futures given to several combinators at once'
BOUNDS = 'up to 25 operations, 12 waiters, 6 futures, 5 combinators over the same futures'
FUNCTIONS = ['core.AsyncEvent', 'core.AsyncCallbackEvent', 'core.AsyncState', 'core.until_any', 'core.until_some', 'core.until_later', 'core.future_timeout_manager']
STATES = ['a', 'b', 'c', 'd']


def cases(h):
    r = h.rng
    for by in ('until_state', 'until_state_in'):
        for n in range(2):
            for react in (('wait',), ('c',), ('c', 'wait'), ('c', 'wait', 'b'), ('c', 'b'), ('c', 'b', 'wait')):
                yield 'reentrant', (by, n, react)
    for i in range(h.n(150, 4000)):
        yield 'event', (r.randrange(1 << 30), r.choice(['event', 'callback']))
        yield 'state', (r.randrange(1 << 30),)
        yield 'combine', (r.randrange(1 << 30), r.randrange(1, 7))
    for i in range(h.n(30, 300)):
        yield 'manager', (r.randrange(1 << 30),)
    for i in range(h.n(6, 40)):
        yield 'blocking', (r.randrange(1 << 30),)


class W(object):
    """one wait and what it has to come to"""

    def __init__(self, h, f, name, hook=None):
        self.h, self.f, self.name = h, f, name
        self.calls = 0
        self.seen = None

        def done(f):
            self.calls += 1
            self.seen = self.state()
            if hook:
                hook()
        f.add_done_callback(done)

    def state(self):
        if not self.f.done():
            return 'pending'
        e = self.f.exception()
        if e is None:
            return ('result', self.f.result())
        return 'timeout' if isinstance(e, gen.TimeoutError) else ('failed', e)

    def expect(self, want, ctx):
        got = self.state()
        self.h.check('a wait resolves exactly when its condition holds or its timeout passes', got == want, '%s: %r, expected %r (%s)' % (self.name, got, want, ctx))
        self.h.check('every waiter is released once', self.calls == (want != 'pending'), '%s: told %d times (%s)' % (self.name, self.calls, ctx))


def step_time(w, r):
    w.run(r.choice([.1, .25, .5, 1]))


def timeout(r):
    return r.choice([None, None, 0, .3, .7, 1.4, 2.1, -1])


def case_event(h, p):
    import random
    seed, kind = p
    r = random.Random(seed)
    with World() as w:
        told, want_told = [], []
        ev = core.AsyncEvent(w.loop) if kind == 'event' else core.AsyncCallbackEvent(lambda f: told.append(f))
        flag, waits, log = False, [], []
        for i in range(r.randrange(3, 26)):
            op = r.choice(['set', 'clear', 'wait', 'wait', 'time', 'react'])
            log.append(op)
            if op == 'set':
                flag = True
                ev.set()
                want_told.append(True)
                for x in waits:
                    if x.want == 'pending':
                        x.want = ('result', True)
            elif op == 'clear':
                flag = False
                ev.clear()
                want_told.append(False)
            elif op == 'time':
                step_time(w, r)
                for x in waits:
                    if x.want == 'pending' and x.end is not None and x.end <= CLOCK.now:
                        x.want = 'timeout'
            elif len(waits) < 12:
                T = timeout(r) if op == 'wait' else None
                log.append(T)

                class Hook(object):
                    # a waiter that clears and waits again at once
                    done, again = op != 'react', None

                    def __call__(self):
                        if kind == 'event' and not self.done:
                            self.done = True
                            ev.clear()
                            self.again = W(h, ev.until_set(), 'again')
                            ev.set()
                hook = Hook()
                x = W(h, ev.until_set(*([] if T is None else [T])), 'until_set(%r)' % T, hook)
                x.hook = hook
                x.end = None if T is None else CLOCK.now + T
                x.want = ('result', True) if flag else 'pending'
                waits.append(x)
                if T is not None and T <= 0:
                    w.settle()
                    w.run(.01)
                    if x.want == 'pending':
                        x.want = 'timeout'
                    for y in waits:
                        if y.want == 'pending' and y.end is not None and y.end <= CLOCK.now:
                            y.want = 'timeout'
            h.check('the flag is what was last asked for', ev.isSet() is flag and ev.is_set() is flag, '%r %r' % (ev.isSet(), log))
            for x in waits:
                x.expect(x.want, log)
                if x.hook.again is not None:
                    x.hook.again.expect(('result', True), log)
        if kind == 'callback':
            h.check('the callback is told every set and clear', told == want_told, '%r %r' % (told, want_told))
        h.nontrivial((kind, len(waits), tuple(log[:4])))


def case_state(h, p):
    import random
    r = random.Random(p[0])
    with World() as w:
        init = r.choice([None] + STATES)
        st = core.AsyncState(STATES, init, w.loop) if init or r.random() < .5 else core.AsyncState(STATES, ioloop=w.loop)
        now, waits, log = init or 'a', [], []
        for i in range(r.randrange(3, 26)):
            op = r.choice(['set', 'set', 'wait', 'wait', 'in', 'time', 'bad'])
            if op == 'set':
                now = r.choice(STATES)
                log.append(now)
                st.set_state(now)
                for x in waits:
                    if x.want == 'pending' and now in x.targets:
                        x.want = ('result', True)
            elif op == 'time':
                log.append('time')
                step_time(w, r)
            elif op == 'bad':
                for f in (st.set_state, st.until_state):
                    try:
                        f('zzz')
                        ok = False
                    except ValueError:
                        ok = True
                    h.check('a state outside the declared values is refused', ok, log)
            elif len(waits) < 12:
                T = timeout(r)
                targets = [r.choice(STATES)] if op == 'wait' else r.sample(STATES, r.randrange(1, 4))
                log.append((op, targets, T))
                f = st.until_state(targets[0], T) if op == 'wait' else st.until_state_in(*targets, **({} if T is None else {'timeout': T}))
                x = W(h, f, '%s %s' % (op, targets))
                x.targets, x.end = targets, None if T is None else CLOCK.now + T
                x.want = ('result', True) if now in targets else 'pending'
                waits.append(x)
                if T is not None and T <= 0:
                    w.run(.01)
            for x in waits:
                if x.want == 'pending' and x.end is not None and x.end <= CLOCK.now:
                    x.want = 'timeout'
            h.check('the state is the one last set', st.state == now and st.valid_states == frozenset(STATES), log)
            for x in waits:
                x.expect(x.want, log)
        h.nontrivial((len(waits), tuple(map(str, log[:4]))))


def case_reentrant(h, p):
    """a waiter that, once woken, moves on to another state and waits for the first one again"""
    by, others, react = p
    with World() as w:
        st = core.AsyncState(STATES, 'a', w.loop)
        wait = lambda s: getattr(st, by)(s)
        inner, now = [], ['b']

        def hook():
            for x in react:
                if x == 'wait':
                    inner.append((W(h, wait('b'), 'waits again'), react[-1] == 'b' or now[0] == 'b'))
                else:
                    now[0] = x
                    st.set_state(x)
        ws = [W(h, wait('b'), 'before') for _ in range(others)]
        ws.append(W(h, st.until_state('b'), 'reacts', hook))
        ws += [W(h, wait('b'), 'after') for _ in range(others)]
        st.set_state('b')
        for x in ws:
            x.expect(('result', True), p)
        h.check('the state is the one last set', st.state == now[0], (p, st.state))
        for x, at in inner:
            x.expect(('result', True) if at else 'pending', p)
            st.set_state('b')
            x.expect(('result', True), p)
        h.nontrivial(p)


def case_combine(h, p):
    import random
    seed, n = p
    r = random.Random(seed)
    with World() as w:
        fs = [TFuture() for _ in range(n)]
        order, strangers, combos, log = [], [], [], []

        def resolve(i):
            f = fs[i]
            order.append(i)
            if r.random() < .8:
                f.set_result(('v', i))
            else:
                f.set_exception(ValueError(i))
            log.append(('resolve', i))

        def value(i):
            e = fs[i].exception()
            return ('result', fs[i].result()) if e is None else ('failed', e)

        def start():
            pick = r.sample(range(n), r.randrange(1, n + 1))
            T = timeout(r)
            k = {} if T is None else {'timeout': T}
            kind = r.choice(['any', 'any', 'some', 'keys'])
            least = None
            if kind == 'any':
                f = core.until_any(*[fs[i] for i in pick], **k)
            else:
                least = r.choice([None, 0, 1, 2, len(pick), len(pick) + 1])
                if least is not None:
                    k['done_at_least'] = least
                if kind == 'some':
                    f = core.until_some(*[fs[i] for i in pick], **k)
                else:
                    k.update(('k%d' % i, fs[i]) for i in pick)
                    f = core.until_some(**k)
            x = W(h, f, '%s %s %s' % (kind, pick, k.keys()))
            x.kind, x.pick, x.end = kind, pick, None if T is None else CLOCK.now + T
            x.least = len(pick) if least is None else min(least, len(pick))
            x.pre = [i for i in pick if i in order]
            if kind == 'keys':
                x.pre = None if len(x.pre) > 1 else x.pre
            x.start, x.want = len(order), 'pending'
            log.append((kind, pick, T, least))
            combos.append(x)

        def spec(x):
            """what the futures say, in their order"""
            if x.want != 'pending':
                return x.want
            if x.pre is None:       # several were done when it started: their order is that of a dict, not specified
                x.want = None
                return None
            seq = x.pre + [i for i in order[x.start:] if i in x.pick]
            if x.kind == 'any':
                return value(seq[0]) if seq else 'pending'
            out = []
            for i in seq[:x.least]:
                v = value(i)
                if v[0] == 'failed':
                    return v
                out.append((x.pick.index(i) if x.kind == 'some' else 'k%d' % i, v[1]))
            return ('result', out) if len(out) == x.least else 'pending'
        for i in range(r.randrange(4, 16)):
            op = r.choice(['start', 'start', 'resolve', 'resolve', 'stranger', 'time'])
            left = [i for i in range(n) if i not in order]
            if op == 'start' and len(combos) < 5:
                start()
            elif op == 'resolve' and left:
                for j in r.sample(left, min(len(left), r.choice([1, 1, 2]))):
                    resolve(j)
            elif op == 'stranger':
                j = r.randrange(n)
                strangers.append((j, W(h, fs[j], 'stranger %d' % j)))
                log.append(('stranger', j))
            elif op == 'time':
                log.append('time')
                step_time(w, r)
            w.settle()
            w.run(.001)
            for x in combos:
                if x.want != 'pending':
                    continue
                x.want = spec(x)
                if x.want == 'pending' and x.end is not None and x.end <= CLOCK.now:
                    x.want = 'timeout'
            for x in combos:
                if x.want is not None:
                    x.expect(x.want, log)
            for j, x in strangers:
                x.expect(value(j) if j in order else 'pending', log)
        h.nontrivial((n, tuple(x.kind for x in combos)))


def case_manager(h, p):
    import random
    r = random.Random(p[0])
    with World() as w:
        T = timeout(r)
        m = core.future_timeout_manager(T)
        t0 = CLOCK.now
        for i in range(3):
            rem = m.remaining()
            h.check('what remains is the timeout less the time since the start', (rem is None) if T is None else abs(rem - (T - (CLOCK.now - t0))) < 1e-6, '%r %r' % (T, rem))
            f = TFuture()
            if r.random() < .3:
                f.set_result(i)
            x = W(h, m(f), 'op %d' % i)
            step_time(w, r)
            if not f.done() and r.random() < .6:
                want = 'timeout' if T is not None and CLOCK.now >= t0 + T else ('result', i)
                f.set_result(i)
                x.expect(want, T)
            elif f.done():
                x.expect(('result', i), T)
            else:
                x.expect('timeout' if T is not None and CLOCK.now >= t0 + T else 'pending', T)
        d = r.choice([.1, .5, 1])
        x = W(h, core.until_later(d), 'later')
        w.run(d - .05)
        x.expect('pending', d)
        w.run(.1)
        x.expect(('result', None), d)
        h.nontrivial((T,))


def case_blocking(h, p):
    """wait_with_ioloop in a thread of its own, while the ioloop runs here (real time)."""
    import random
    import threading
    import tornado.ioloop
    r = random.Random(p[0])
    loop = tornado.ioloop.IOLoop()
    ev = core.AsyncEvent(loop)
    how = r.choice(['set before', 'set later', 'set and cleared', 'never'])
    out, asked = [], []
    started = threading.Event()

    class Loop(object):
        def add_callback(self, f, *a, **k):
            loop.add_callback(lambda: (f(*a, **k), asked.append(1)))

        def __getattr__(self, n):
            return getattr(loop, n)

    def other():
        started.set()
        out.append(ev.wait_with_ioloop(Loop(), .1 if how == 'never' else 10))
        loop.add_callback(loop.stop)
    if how == 'set before':
        ev.set()
    t = threading.Thread(target=other)
    t.daemon = True
    t.start()
    started.wait(5)

    def later():
        if not asked:
            return loop.add_callback(later)
        ev.set()
        if how == 'set and cleared':
            ev.clear()
    if how in ('set later', 'set and cleared'):
        loop.add_callback(later)
    loop.start()
    t.join(5)
    loop.close()
    h.check('a blocking wait tells whether the event was set in time', out == [how != 'never'], '%s: %r' % (how, out))
    h.nontrivial((how,))
