"""C10 executable contract: what each sampling strategy sends, against the promises, over random histories in virtual time."""
from net import *      # noqa
import threading
from katcp import Sensor
from katcp.sampling import SampleStrategy

RULE = 'random histories of sensor updates (on the ioloop, by another thread, several at once, while the ioloop is late) and of time passing, for each strategy on sensors of each kind; every update sent is compared with the promises of the strategy'
BOUNDS = 'up to 30 steps, values 0..6 (integers, floats, texts, booleans), virtual time'
FUNCTIONS = ['sampling.SampleStrategy.start', 'sampling.SampleAuto', 'sampling.SampleDifferential', 'sampling.SamplePeriod', 'sampling.SampleEvent',
             'sampling.SampleEventRate', 'sampling.SampleDifferentialRate', 'sampling.update_in_ioloop', 'core.Sensor.set', 'core.Sensor.notify']
STRATS = ['auto', 'event', 'period', 'differential', 'event-rate', 'differential-rate']


def cases(h):
    r = h.rng
    for _ in range(h.n(260, 20000)):
        st = r.choice(STRATS)
        typ = r.choice({'differential': ['integer', 'float', 'timestamp'], 'differential-rate': ['integer', 'float']}.get(st, ['integer', 'float', 'string', 'boolean']))
        a = r.choice([0, .5, 1, 1, 2])
        b = r.choice([x for x in (1, 2, 3.5, 10, 1000, 1e18) if x >= a])
        ps = {'period': [r.choice([.5, 1, 3])], 'differential': [r.choice([1, 2])], 'event-rate': [a, b], 'differential-rate': [r.choice([0, 1, 2]), a, b]}.get(st, [])
        ops = []
        for _ in range(r.randrange(4, 30)):
            k = r.random()
            if k < .45:
                ops.append(('set', [(r.randrange(7), r.choice([1, 1, 1, 2])) for _ in range(r.choice([1, 1, 1, 2, 3]))]))
            elif k < .6:
                ops.append(('late', r.choice([.3, 1, 1.7, 4]), [(r.randrange(7), 1) for _ in range(r.choice([0, 1, 2, 3]))]))
            elif k < .68:
                ops.append(('thread', [(r.randrange(7), 1)]))
            else:
                ops.append(('run', r.choice([.1, .25, .5, 1, 1, 2, 7])))
        yield 'history', (st, typ, ps, ops, r.random() < .1, r.random() < .1)
    for st in STRATS:
        yield 'race', (st,)


def value(typ, v):
    return {'integer': v, 'float': v + .0, 'timestamp': v + .0, 'string': b'v%d' % v, 'boolean': bool(v % 2)}[typ]


def case_history(h, pr):
    st, typ, ps, ops, raising, early = pr
    with World() as w:
        s = {'integer': Sensor.integer, 'float': Sensor.float, 'string': Sensor.string, 'boolean': Sensor.boolean, 'timestamp': Sensor.timestamp}[typ]('s')
        log = []                # ('set', time, reading) and ('sent', time, reading) in order

        def put(v, status):
            s.set(w.now(), status, value(typ, v))

        class Spy(object):
            def update(self, sensor, reading):
                log.append(('set', w.now(), tuple(reading)))
        put(1, 1)

        def cb(sensor, reading):
            log.append(('sent', w.now(), tuple(reading)))
            if raising:
                raise ValueError('client')
        log.append(('set', w.now(), tuple(s.read())))
        x = SampleStrategy.get_strategy(st, cb, s, *[('%r' % p).encode() for p in ps], ioloop=w.loop)
        x.start()
        if early:
            put(5, 1)
            log.append(('set', w.now(), tuple(s.read())))
        w.settle()
        h.check('a started strategy sends the current reading', [e for e in log if e[0] == 'sent'][:1] == [('sent', w.now(), tuple(s.read()))], '%r %r' % (pr, log))
        s._observers_spy = Spy()
        spy = Spy()
        # the log must have the set before what it causes
        orig = s.notify

        def notify(reading):
            log.append(('set', w.now(), tuple(reading)))
            orig(reading)
        s.notify = notify
        for op in ops:
            if op[0] == 'set':
                for v, status in op[1]:
                    put(v, status)
                w.settle()
            elif op[0] == 'late':
                def busy():
                    CLOCK.now += op[1]
                    for v, status in op[2]:
                        put(v, status)
                w.loop.add_callback(busy)
                w.settle()
            elif op[0] == 'thread':
                t = threading.Thread(target=lambda: [put(*a) for a in op[1]])
                t.start()
                t.join()
                w.settle()
            else:
                w.run(op[1])
        check(h, st, ps, log, w.now(), '%r: %r' % (pr, log))
        h.nontrivial((st, typ, len(ps), len([e for e in log if e[0] == 'sent'])))
        h.check('no more than two timers', w.loop.timers() <= 2, pr)


def differs(st, ps, a, b):
    if a[1] != b[1]:
        return True
    if st.startswith('differential'):
        return abs(a[2] - b[2]) > ps[0]
    return a[2] != b[2]


def check(h, st, ps, log, end, what):
    sent = [e for e in log if e[0] == 'sent']
    cur = None
    first = True
    if st in ('auto', 'event', 'differential'):
        want, last = [], None
        started = False
        for e in log:
            if e[0] == 'sent' and not started:
                started, last = True, e[2]
                h.check('only current readings are sent', e[2] == cur, what)
                want.append(e[2])
            elif e[0] == 'set':
                cur = e[2]
                if started and (st == 'auto' or differs(st, ps, cur, last)):
                    last = cur
                    want.append(cur)
        h.check('exactly the promised updates are sent, in order', [e[2] for e in sent] == want, '%s want %r' % (what, want))
        return
    lastsent = None
    for e in log:
        if e[0] == 'set':
            cur = e[2]
        else:
            h.check('only current readings are sent', e[2] == cur, what)
    if st == 'period':
        p = ps[0]
        t0 = sent[0][1]
        for i, e in enumerate(sent):
            h.check('at most one update per period', i <= (e[1] - t0) / p + 1e-6, what)
            if i > 1:           # one that is late and the next one may come together, but what was missed is not made up for
                h.check('at most one update per period', e[1] - sent[i - 2][1] >= p - 1e-6, what)
        if "'late'" not in what:
            h.check('an update at each period', [round(e[1] - t0, 4) for e in sent] == [round(i * p, 4) for i in range(int((end - t0) / p + 1e-6) + 1)], what)
        return
    lo, hi = ps[-2:]
    late = "'late'" in what
    for a, b in zip(sent, sent[1:]):
        h.check('never closer than the minimum period', b[1] - a[1] >= lo - 1e-6, what)
    was, seen = None, False
    for e in log:
        if e[0] == 'sent':
            h.check('before the maximum period only changes are sent', was is None or seen or e[1] - was[1] >= min(hi, 4e17) - 1e-6, what)
            was, seen = e, False
        elif was is not None and differs(st, ps, was[2], e[2]):
            seen = True
    # a pending change: differs from the last sent, and the minimum period is over: must have been sent by the time the ioloop comes to rest
    last, tl = sent[0][2], sent[0][1]
    cur = None
    points = []             # (time, current, last sent, its time) after each event
    for e in log:
        if e[0] == 'set':
            cur = e[2]
        else:
            last, tl = e[2], e[1]
        if e[1] >= sent[0][1] and cur is not None:
            points.append((e[1], cur, last, tl))
    for (t0, c, l, tl), nxt in zip(points, points[1:] + [None]):
        t1 = nxt[0] if nxt else end
        due = max(t0, tl + lo)
        if differs('differential-rate' if st == 'differential-rate' else st, ps, c, l) and due < t1 - 1e-6 and not jumped(what, t0, t1, due):
            h.check('a pending change is sent as soon as the minimum period allows', False, '%s at %r' % (what, (t0, t1, c, l)))
        if hi < 4e17 and not late:
            h.check('at least one update per maximum period', t1 - tl <= hi + 1e-6, what)
    h.check('pending changes were sent', True)


def jumped(what, t0, t1, due):
    """time passed while the ioloop was busy: what was due then comes at its end"""
    return "'late'" in what and t1 - due <= 4 + 1e-6


def case_race(h, pr):
    """another thread sets the sensor right after the first reading of a starting strategy"""
    st, = pr
    with World() as w:
        armed = [1]

        class S(Sensor):
            def read(self):
                r = Sensor.read(self)
                if armed:
                    armed.pop()
                    t = threading.Thread(target=self.set_value, args=(7,))
                    t.start()
                    t.join()
                return r
        s = S(Sensor.INTEGER, 's')
        out = []
        ps = {'period': [1], 'differential': [1], 'event-rate': [1, 1000], 'differential-rate': [1, 1, 1000]}.get(st, [])
        SampleStrategy.get_strategy(st, lambda s, r: out.append(r.value), s, *ps, ioloop=w.loop).start()
        w.settle()
        w.run(2)
        h.check('an update set while a strategy starts is not lost', out[-1] == 7, '%r %r' % (pr, out))
