"""C20: contracts on events, states and the combinators of futures: every operation from every state, waiters with and without deadline."""
from .common import *          # noqa

MODULES = ['core', 'kattypes', 'server', 'client']
UNDER_CONTRACT = ['core.AsyncEvent.__init__/set/clear/isSet/until_set/wait_with_ioloop', 'core.AsyncCallbackEvent.set/clear',
                  'core.AsyncState.__init__/state/valid_states/set_state/until_state/until_state_in', 'core.until_any', 'core.until_some',
                  'core.until_later', 'core.future_timeout_manager', 'client.DeviceClient.until_running/until_connected/until_protocol/until_stopped',
                  'client.DeviceClient.wait_running/wait_connected/wait_disconnected/wait_protocol']
ASSUMPTIONS = ['tornado 4.5 futures call their callbacks in order over the live list when resolved; with_timeout, chain_future and WaitIterator as in tornado 4.5',
               'a timer fires once its time has come, the earliest first; time passes only between callbacks of the ioloop',
               'a ghost waiter stands for any number of waiters registered next to each other: no code under contract looks at the callbacks of others',
               'the futures given to one until_some call are distinct']


class Waits(object):
    """futures a ghost waits on, what they must come to, and the clock"""

    def __init__(self, cx):
        self.cx, self.ip = cx, cx.interp
        cx.ghost['coroutines'] = True
        cx.ghost['thread_ident'] = 1
        self.loop = cx.ghost['ioloop'] = L.NIOLoop()
        self.loop.now = cx.real('now')
        self.all = []
        self.n = 0

    def later(self):
        self.n += 1
        new = self.cx.real('time%d' % self.n)
        self.cx.assume(new.t >= self.loop.now.t)
        # nothing is due meanwhile
        for h in self.loop.active():
            self.cx.assume(t(h.when) > new.t)
        self.loop.now = new

    def fire(self):
        """time passes until the earliest timer is due"""
        act = self.loop.active()
        if not act:
            return None
        h = act[self.cx.pick('timer', range(len(act)))] if len(act) > 1 else act[0]
        for g in act:
            if g is not h:
                self.cx.assume(t(g.when) >= t(h.when))
        self.n += 1
        new = self.cx.real('time%d' % self.n)
        self.cx.assume(z3.And(new.t >= t(h.when), new.t >= self.loop.now.t))
        self.loop.now = new
        self.loop.fire(self.ip, h)
        return h

    def drain(self):
        self.loop.drain(self.ip)

    def wait(self, name, future, then=None):
        w = Wait(self, name, future, then)
        self.all.append(w)
        return w

    def timeout(self, label):
        return self.cx.real(label) if self.cx.pick('timeout', ['given', 'none']) == 'given' else None


class Wait(object):
    def __init__(self, ws, name, future, then):
        self.ws, self.name, self.future = ws, name, future
        self.got = []
        self.deadline = None
        if not isinstance(future, IFuture):
            raise Unsupported('a wait that is not a tornado future')

        def done(f):
            self.got.append((f.state, f.value))
            if then is not None:
                then(self)
        future.m_add_done_callback(ws.ip, ws.ip.lib.N(done, 'ghost waiter'))

    def pending(self, why):
        self.ws.cx.prove('a wait is not released before its condition holds or its timeout passes', not self.got and self.future.state == 'pending',
                         info=(self.name, why, self.got))

    def released(self, value, why):
        cx, ip = self.ws.cx, self.ws.ip
        ok = len(self.got) == 1 and self.got[0][0] == 'result'
        cx.prove('every waiter is released exactly once when its condition holds', ok, info=(self.name, why, self.got))
        cx.prove('with the value that made it hold', ip.eq(self.got[0][1], value), info=(self.name, self.got))

    def timed_out(self, why):
        ok = len(self.got) == 1 and self.got[0][0] == 'exc' and is_exc(self.ws.ip, self.got[0][1], L.Lib.TIMEOUT)
        self.ws.cx.prove('a timeout error comes when the timeout passes first', ok, info=(self.name, why, self.got))

    def failed(self, exc, why):
        ok = len(self.got) == 1 and self.got[0][0] == 'exc' and self.got[0][1] is exc
        self.ws.cx.prove('a failure that comes first is passed on', ok, info=(self.name, why, self.got))


# ---------------------------------------------------------------- events
class Ev(object):
    """An event next to its specification: flag and pending waiters."""

    def __init__(self, cx, cls='AsyncEvent', **kw):
        self.ws = Waits(cx)
        self.cx, self.ip = cx, cx.interp
        self.ev = self.ip.call(self.ip.get('katcp.core:' + cls), kw.get('args', []), {} if cls != 'AsyncEvent' or cx.pick('ioloop', ['given', 'current']) == 'current'
                               else {'ioloop': self.ws.loop})
        self.flag = False
        self.waiting = []

    def m(self, name, *a, **k):
        st, x = attempt(self.ip, self.ip.getattr(self.ev, name), *a, **k)
        self.cx.prove('operations on an event never fail', st == 'ok', info=(name, ename(x)))
        return x

    def op(self, what, then=None):
        cx, ip, ws = self.cx, self.ip, self.ws
        if what == 'set':
            # the flag is set before anyone is woken, and those woken are those that waited
            woken, self.waiting = self.waiting, []
            self.flag = True
            self.m('set')
            for w in woken:
                w.released(True, 'set')
        elif what == 'clear':
            self.flag = False
            self.m('clear')
        elif what == 'expire':
            h = ws.fire()
            if h is None:
                raise PathEnd()
            w = [w for w in self.waiting if w.deadline is not None and w.handle is h]
            cx.prove('only the timeouts of waiting waits run', len(w) == 1)
            self.waiting.remove(w[0])
            w[0].timed_out('expire')
        else:
            T = ws.timeout('timeout') if what == 'wait' else None
            n = len(ws.loop.active())
            before = self.flag
            w = ws.wait(what, self.m('until_set', *([] if T is None and cx.pick('argument', ['absent', 'none']) == 'absent' else [T])), then)
            if before:
                w.released(True, 'already set')
            else:
                w.pending('just started')
                self.waiting.append(w)
            new = ws.loop.active()[n:]
            if T is not None and not before:
                cx.prove('the timeout of a wait is scheduled', len(new) == 1 and t(new[0].when) == ws.loop.now.t + T.t)
                w.deadline, w.handle = ws.loop.now.t + T.t, new[0]
            else:
                cx.prove('a wait without a timeout schedules none', not new)
        self.check(what)
        ws.drain()
        self.check(what)

    def check(self, why):
        cx = self.cx
        for w in self.waiting:
            w.pending(why)
        for name in ('isSet', 'is_set'):
            cx.prove('the flag is what was last asked for', self.m(name) is self.flag, info=(why, self.flag))
        act = self.ws.loop.active()
        cx.prove('timers belong to waiting waits', len(act) == len([w for w in self.waiting if w.deadline is not None]))


def c_event(cx, first):
    """every operation, from every flag and with waiters of every kind, then further operations"""
    e = Ev(cx)
    if first != 'fresh':
        e.op('wait') if cx.pick('waiter', ['yes', 'no']) == 'yes' else None
    if first in ('set', 'cleared'):
        e.op('set')
    if first == 'cleared':
        e.op('clear')
    for i in range(3):
        what = cx.pick('op', ['set', 'clear', 'wait', 'expire'])
        e.ws.later()
        e.op(what)
    e.ws.later()
    e.op('set')


def c_event_reentrant(cx):
    """a waiter that, once woken, clears, sets or waits again does not disturb the others"""
    e = Ev(cx)
    what = cx.pick('reaction', ['clear', 'wait', 'clear then wait', 'clear then set', 'clear, wait, set', 'raise', 'set'])
    inner = []

    def then(w):
        cx.prove('the flag is set when a waiter is woken', e.m('isSet') is True)
        for x in what.replace(',', '').replace('then ', '').split():
            if x == 'clear':
                e.m('clear')
                e.flag = False
            elif x == 'set':
                e.m('set')
                e.flag = True
            elif x == 'wait':
                inner.append((e.ws.wait('inner', e.m('until_set')), e.flag))
            else:
                raise PyExc(ValueError('x'))
    others = [e.ws.wait('before', e.m('until_set')) for _ in range(cx.pick('before', [0, 1]))]
    e.ws.wait('reacts', e.m('until_set', *([] if e.ws.timeout('tr') is None else [cx.real('tr2')])), then)
    others += [e.ws.wait('after', e.m('until_set')) for _ in range(cx.pick('after', [0, 1, 2]))]
    e.flag = True
    e.m('set')
    for w in others:
        w.released(True, 'set')
    cx.prove('the flag is what was last asked for', e.m('isSet') is e.flag)
    for w, at in inner:
        if at or what == 'clear, wait, set':
            w.released(True, 'inner')
        else:
            w.pending('inner')
            e.m('set')
            w.released(True, 'inner')
    cx.prove('no timer stays', not e.ws.loop.active())


def c_callback_event(cx):
    """an event with a callback tells it every change, and stays an event whatever the callback does"""
    told = []
    fails = cx.pick('callback', ['works', 'raises'])
    ip = cx.interp

    def cb(flag):
        told.append(flag)
        if fails == 'raises':
            raise PyExc(ValueError('callback'))
    e = Ev(cx, 'AsyncCallbackEvent', args=[ip.lib.N(cb, 'callback')])
    e.op('wait')
    want = []
    for i in range(3):
        what = cx.pick('op', ['set', 'clear', 'wait'])
        e.ws.later()
        e.op(what)
        if what != 'wait':
            want.append(what == 'set')
    cx.prove('the callback is told every set and clear', told == want, info=(told, want))


def c_blocking(cx):
    """wait_with_ioloop from another thread: true exactly when the event is or becomes set in time"""
    e = Ev(cx)
    ip = cx.interp
    if cx.pick('flag', ['set', 'not set']) == 'set':
        e.op('set')
    T = e.ws.timeout('limit')
    script = cx.pick('meanwhile', [['run'], ['run', 'set'], ['run', 'set', 'clear'], ['set', 'run'], ['set', 'clear', 'run'], ['set'], [], ['run', 'clear', 'set']])
    flag0 = e.flag
    hist = []

    def block(ip2, fut, timeout):
        cx.prove('the caller waits no longer than asked', (timeout is None) == (T is None) and (T is None or ip.eq(timeout, T)))
        ran = False
        ok = False
        for s in script:
            if s == 'run':
                e.ws.drain()
                ran = True
                ok = ok or e.flag
            else:
                e.flag = s == 'set'
                e.m(s)
                e.ws.drain() if ran else None
                ok = ok or (ran and e.flag)
        hist.append(ok)
        if fut.state == 'pending' and T is None:
            raise PathEnd('waits for ever')
    cx.ghost['block'] = block
    cx.ghost['thread_ident'] = 2
    st, r = attempt(ip, ip.getattr(e.ev, 'wait_with_ioloop'), e.ws.loop, *([] if T is None and cx.pick('arg', ['no', 'yes']) == 'no' else [T]))
    cx.prove('a blocking wait returns', st == 'ok', info=ename(r))
    want = hist[0] or e.flag if hist else True
    cx.prove('it tells whether the event was set in time', r is want, info=(r, want, script))
    if 'run' in script:
        cx.prove('it waits in the ioloop', bool(hist))


# ---------------------------------------------------------------- states
NAMES = ['idle', 'busy', 'done']


class Stt(object):
    def __init__(self, cx, initial=('default', 'none', 'given', 'invalid')):
        self.ws = Waits(cx)
        self.cx, ip = cx, cx.interp
        self.ip = ip
        how = cx.pick('initial', initial)
        seq = cx.pick('declared as', [list, tuple])(NAMES) if len(initial) > 1 else NAMES
        a, k = [seq], {}
        if how == 'none':
            a.append(None)
        elif how == 'given':
            k['initial_state'] = self.now = cx.pick('initial state', NAMES)
        elif how == 'invalid':
            bad = cx.str('initial state')
            cx.assume(z3.And(*[bad.t != zs(n) for n in NAMES]))
            k['initial_state'] = bad
        if len(initial) == 1 or cx.pick('ioloop', ['given', 'current']) == 'given':
            k['ioloop'] = self.ws.loop
        st, self.st = attempt(ip, ip.get('katcp.core:AsyncState'), *a, **k)
        if how == 'invalid':
            cx.prove('a state outside the declared values is refused', st == 'raise')
            raise PathEnd()
        cx.prove('a state is made', st == 'ok', info=ename(self.st))
        if how != 'given':
            self.now = NAMES[0]
        self.waiting = []
        self.check('new')

    def check(self, why):
        cx, ip = self.cx, self.ip
        cx.prove('the state is the one last set', ip.eq(ip.getattr(self.st, 'state'), self.now), info=why)
        vs = ip.getattr(self.st, 'valid_states')
        cx.prove('the declared values never change', sorted(ip.items_of(vs)) == sorted(NAMES), info=why)
        for w, _ in self.waiting:
            w.pending(why)

    def op(self, what, any_=False):
        cx, ip, ws = self.cx, self.ip, self.ws
        if what == 'set':
            s = cx.str('state') if any_ else cx.pick('state', NAMES)
            st, x = attempt(ip, ip.getattr(self.st, 'set_state'), s)
            if st == 'raise':
                cx.prove('only states outside the declared values are refused', any_ and z3.And(*[s.t != zs(n) for n in NAMES]))
                cx.prove('refused with a value error', is_exc(ip, x, ValueError), info=ename(x))
            else:
                if any_:
                    cx.prove('a state outside the declared values is refused', z3.Or(*[s.t == zs(n) for n in NAMES]))
                    for n in NAMES:
                        if cx.branch(s.t == zs(n)):
                            self.now = n
                            break
                else:
                    self.now = s
                hit = [w for w, ss in self.waiting if self.now in ss]
                self.waiting = [(w, ss) for w, ss in self.waiting if self.now not in ss]
                for w in hit:
                    w.released(True, 'set')
        elif what == 'expire':
            if not ws.loop.active():
                raise PathEnd()
            live = [w for w, _ in self.waiting if w.handles]
            if not live:
                raise PathEnd()
            h = ws.fire()
            for w, ss in list(self.waiting):
                if h in w.handles:
                    self.waiting.remove((w, ss))
                    w.timed_out('expire')
        elif what == 'wait':
            s = cx.pick('target', NAMES + ['bad'])
            T = ws.timeout('timeout')
            k = {} if T is None else {'timeout': T}
            n = len(ws.loop.active())
            if s == 'bad':
                v = cx.str('target')
                cx.assume(z3.And(*[v.t != zs(m) for m in NAMES]))
                st, x = attempt(ip, ip.getattr(self.st, 'until_state'), v, **k)
                cx.prove('a wait for a state outside the declared values is refused', st == 'raise' and is_exc(ip, x, ValueError))
                return
            self.begin((s,), attempt(ip, ip.getattr(self.st, 'until_state'), s, **k), T, n)
        else:
            ss = cx.pick('targets', [('busy', 'done'), ('idle', 'busy'), ('done',), ('idle', 'busy', 'done')])
            T = ws.timeout('timeout')
            n = len(ws.loop.active())
            self.begin(ss, attempt(ip, ip.getattr(self.st, 'until_state_in'), *ss, **({} if T is None else {'timeout': T})), T, n)
        self.check(what)
        ws.drain()
        self.check(what)

    def begin(self, ss, r, T, n):
        cx, ws = self.cx, self.ws
        cx.prove('a wait can always be started', r[0] == 'ok', info=ename(r[1]))
        w = ws.wait('/'.join(ss), r[1])
        w.handles = []
        if self.now in ss:
            w.released(True, 'already')
            return
        w.pending('just started')
        w.handles = ws.loop.active()[n:]
        if T is None:
            cx.prove('a wait without a timeout schedules none', not w.handles)
        else:
            cx.prove('the timeout of a wait is scheduled', len(w.handles) >= 1 and z3.And(*[t(h.when) == ws.loop.now.t + T.t for h in w.handles]))
        self.waiting.append((w, ss))


def c_state_initial(cx):
    s = Stt(cx)
    s.ws.later()
    s.op('set', any_=True)


def c_state(cx, first):
    """from any state, with waiters of every kind: any operation, then another change"""
    s = Stt(cx, ('given',))
    s.op(first[0])
    s.ws.later()
    s.op(first[1], any_=True)
    s.ws.later()
    s.op('set')


def c_state_two(cx):
    """two waiters on overlapping sets of states, in both orders, with strangers in between"""
    ws = Waits(cx)
    ip = cx.interp
    st = ip.call(ip.get('katcp.core:AsyncState'), [NAMES])
    waits = []
    for i in range(3):
        ss = cx.pick('wait', [('busy',), ('busy', 'done'), ('done', 'busy')])
        f = ip.call(ip.getattr(st, 'until_state_in' if len(ss) > 1 or cx.pick('by', ['in', 'state']) == 'in' else 'until_state'), list(ss))
        waits.append((ws.wait('%d' % i, f), ss))
    target = cx.pick('set', ['busy', 'done'])
    ip.call(ip.getattr(st, 'set_state'), [target])
    for w, ss in waits:
        if target in ss:
            w.released(True, 'set')
        else:
            w.pending('set')
    ip.call(ip.getattr(st, 'set_state'), ['idle'])
    ip.call(ip.getattr(st, 'set_state'), ['busy'])
    for w, ss in waits:
        w.released(True, 'set later')


def c_state_reentrant(cx):
    """a waiter that, once woken, changes the state, waits for the same state again or raises does not disturb the others"""
    ws = Waits(cx)
    ip = cx.interp
    st = ip.call(ip.get('katcp.core:AsyncState'), [NAMES])
    m = lambda name, *a: ip.call(ip.getattr(st, name), list(a))
    what = cx.pick('reaction', [('wait',), ('leave',), ('leave', 'wait'), ('leave', 'wait', 'back'), ('leave', 'back'), ('wait', 'back'), ('raise',)])
    by = cx.pick('by', ['until_state', 'until_state_in'])
    inner, now = [], ['idle']

    def then(w):
        cx.prove('the state is the one waited for when a waiter is woken', ip.getattr(st, 'state') == 'busy')
        for x in what:
            if x == 'raise':
                raise PyExc(ValueError('x'))
            elif x == 'wait':
                inner.append((ws.wait('inner', m(by, 'busy')), now[0] == 'busy'))
            else:
                now[0] = 'busy' if x == 'back' else 'done'
                m('set_state', now[0])
    others = [ws.wait('before', m(by, 'busy')) for _ in range(cx.pick('before', [0, 1]))]
    ws.wait('reacts', m('until_state', 'busy'), then)
    others += [ws.wait('after', m(by, 'busy')) for _ in range(cx.pick('after', [0, 1]))]
    gone = ws.wait('left', m(by, 'done'))
    now[0] = 'busy'
    m('set_state', 'busy')
    for w in others:
        w.released(True, 'set')
    cx.prove('the state is what was last set', ip.getattr(st, 'state') == now[0])
    gone.released(True, 'left') if 'leave' in what else gone.pending('left')
    for w, at in inner:
        if at or 'back' in what[what.index('wait'):]:
            w.released(True, 'inner')
        else:
            w.pending('inner')
            m('set_state', 'busy')
            w.released(True, 'inner')


# ---------------------------------------------------------------- combinators
class Futs(object):
    """futures (each pending, resolved or failed at the start) with strangers waiting on them before and after"""

    def __init__(self, cx, n):
        self.ws = ws = Waits(cx)
        self.cx, self.ip = cx, cx.interp
        self.fs, self.order, self.strangers = [], [], []
        for i in range(n):
            f = IFuture()
            f.index = i
            self.stranger(f)
            self.fs.append(f)
        for i in range(n):
            how = cx.pick('at first', ['pending', 'result', 'failed'])
            if how != 'pending':
                self.resolve(i, how)
        self.order.sort(key=lambda f: f.index)

    def stranger(self, f):
        self.strangers.append((f, self.ws.wait('stranger', f)))

    def resolve(self, i, how):
        f = self.fs[i]
        self.order.append(f)
        if how == 'result':
            f.m_set_result(self.ip, self.cx.int('value'))
        else:
            f.m_set_exception(self.ip, ValueError('failure'))

    def after_start(self):
        for f in self.fs:
            for _ in range(2):
                self.stranger(f)

    def check_strangers(self):
        for f, w in self.strangers:
            self.cx.prove('other waits on the same futures are released exactly once', len(w.got) == (f.state != 'pending'), info=(f.index, len(w.got)))

    def pending(self):
        return [i for i, f in enumerate(self.fs) if f.state == 'pending']

    def step(self):
        """one of the pending futures resolves, or a timer fires"""
        opts = [('future', i) for i in self.pending()]
        if self.ws.loop.active():
            opts.append(('timer', None))
        if not opts:
            return None
        what, i = self.cx.pick('next', opts)
        if what == 'future':
            self.ws.later()
            self.resolve(i, self.cx.pick('outcome', ['result', 'failed']))
        else:
            self.ws.fire()
        return what


def c_any(cx, n):
    s = Futs(cx, n)
    ip, ws = cx.interp, s.ws
    T = ws.timeout('timeout')
    k = {} if T is None else {'timeout': T}
    if cx.pick('ioloop', ['given', 'current']) == 'given':
        k['ioloop'] = ws.loop
    start = ws.loop.now.t
    st, f = attempt(ip, ip.get('katcp.core:until_any'), *s.fs, **k)
    cx.prove('until_any can always be started', st == 'ok', info=ename(f))
    w = ws.wait('any', f)
    s.after_start()
    timed = False
    act = ws.loop.active()
    if T is None or s.order:
        cx.prove('no timer without a timeout or when it is over', not act)
    else:
        cx.prove('the timeout is scheduled', len(act) == 1 and t(act[0].when) == start + T.t)
    for _ in range(n + 1):
        first = s.order[0] if s.order else None
        if timed:
            w.timed_out('any')
        elif first is None:
            w.pending('any')
        elif first.state == 'result':
            w.released(first.value, 'any')
        else:
            w.failed(first.value, 'any')
        if first is not None or timed:
            cx.prove('no timer stays', not ws.loop.active())
        s.check_strangers()
        r = s.step()
        if r is None:
            return
        if r == 'timer':
            timed = True
        ws.drain()


def c_any_shared(cx):
    """two waits share a future, whichever is started first and whatever else they wait for"""
    ws = Waits(cx)
    ip = cx.interp
    any_ = ip.get('katcp.core:until_any')
    f, g, h = IFuture(), IFuture(), IFuture()
    a = ip.call(any_, cx.pick('a', [[f], [f, g], [g, f], [f, f]]))
    b = ip.call(any_, cx.pick('b', [[f], [f, h], [h, f], [g, f]]), {} if ws.timeout('t') is None else {'timeout': cx.real('t2')})
    last = ws.wait('stranger', f)
    wa, wb = ws.wait('a', a), ws.wait('b', b)
    for w in (wa, wb, last):
        w.pending('start')
    v = cx.int('value')
    f.m_set_result(ip, v)
    for w in (wa, wb, last):
        w.released(v, 'shared')
    ws.drain()
    cx.prove('no timer stays', not ws.loop.active())
    for x in (g, h):
        x.m_set_result(ip, 0)
    for w in (wa, wb, last):
        w.released(v, 'shared later')


def c_some(cx, n, by):
    s = Futs(cx, n)
    ip, ws = cx.interp, s.ws
    k = {}
    need_ = cx.pick('done_at_least', ['absent', None] + list(range(n + 2)))
    if need_ != 'absent':
        k['done_at_least'] = need_
    T = ws.timeout('timeout')
    if T is not None:
        k['timeout'] = T
    want = n if need_ in ('absent', None) else min(need_, n)
    keys = list(range(n))
    start = ws.loop.now.t
    if by == 'args':
        st, f = attempt(ip, ip.get('katcp.core:until_some'), *s.fs, **k)
    else:
        keys = ['f%d' % i for i in range(n)]
        k.update(zip(keys, s.fs))
        st, f = attempt(ip, ip.get('katcp.core:until_some'), **k)
    cx.prove('until_some can always be started', st == 'ok', info=ename(f))
    w = ws.wait('some', f)
    timed = False
    order = None
    if want == 0 or (len(s.order) >= want and all(x.state == 'result' for x in s.order[:want])):
        w.got and cx.cover('at once')
        cx.prove('a wait whose condition already holds is over at once', len(w.got) == 1)
    ws.drain()
    for _ in range(n + 2):
        over = timed
        some = s.order[:want]
        bad = [x for x in some if x.state == 'exc']
        if timed:
            w.timed_out('some')
        elif bad:
            w.failed(bad[0].value, 'some')
            over = True
        elif len(some) == want:
            w.released([(keys[x.index], x.value) for x in some], 'some')
            over = True
        else:
            w.pending('some')
            act = ws.loop.active()
            cx.prove('the timeout covers the whole wait', (T is None and not act) or len(act) == 1 and t(act[0].when) == start + T.t, info=len(act))
        if over:
            cx.prove('no timer stays', not ws.loop.active())
            s.check_strangers()
            return
        r = s.step()
        if r is None:
            return
        timed = r == 'timer'
        if not timed and cx.pick('the ioloop', ['runs', 'is busy']) == 'busy' and s.pending():
            continue
        ws.drain()


def c_manager(cx):
    """one timeout over several operations"""
    ws = Waits(cx)
    ip = cx.interp
    T = ws.timeout('timeout')
    start = ws.loop.now.t
    k = {'ioloop': ws.loop} if cx.pick('ioloop', ['given', 'current']) == 'given' else {}
    m = ip.call(ip.get('katcp.core:future_timeout_manager'), [] if T is None and not k and cx.pick('arg', ['no', 'yes']) == 'no' else [T], k)
    rem = lambda: ip.call(ip.getattr(m, 'remaining'), [])
    for i in range(2):
        r = rem()
        if T is None:
            cx.prove('no timeout: nothing remains', r is None)
        else:
            cx.prove('what remains is the timeout less the time since the start', not isinstance(r, type(None)) and t(r) == T.t - (ws.loop.now.t - start))
        f = IFuture()
        how = cx.pick('operation', ['over', 'pending'])
        v = cx.int('value')
        if how == 'over':
            f.m_set_result(ip, v)
        w = ws.wait('operation', ip.call(m, [f]))
        ws.wait('stranger', f)
        act = ws.loop.active()
        if how == 'over':
            w.released(v, 'over')
        else:
            w.pending('started')
            if T is None:
                cx.prove('no timer without a timeout', not act)
            else:
                cx.prove('the timeout runs from the start', len(act) == 1 and t(act[0].when) == start + T.t)
                if cx.pick('then', ['times out', 'resolves']) == 'times out':
                    ws.fire()
                    w.timed_out('operation')
                    return
            ws.later()
            f.m_set_result(ip, v)
            w.released(v, 'operation')
        cx.prove('no timer stays', not ws.loop.active())
        ws.later()


def c_later(cx):
    ws = Waits(cx)
    ip = cx.interp
    d = cx.real('delay')
    start = ws.loop.now.t
    w = ws.wait('later', ip.call(ip.get('katcp.core:until_later'), [d], {'ioloop': ws.loop} if cx.pick('ioloop', ['given', 'current']) == 'given' else {}))
    w.pending('later')
    act = ws.loop.active()
    cx.prove('the delay is scheduled', len(act) == 1 and t(act[0].when) == start + d.t)
    ws.fire()
    w.released(None, 'later')


# ---------------------------------------------------------------- the waits of a client
EVENTS = {'until_running': ['_running'], 'until_connected': ['_running', '_connected'], 'until_protocol': ['_running', '_received_protocol_info'], 'until_stopped': ['_stopped']}


def client(cx, ws):
    ip = cx.interp
    ns = run_src(ip, 'class C(Base):\n    def __init__(self):\n        pass\n', Base=ip.get('katcp.client:DeviceClient'))
    c = ip.call(ns['C'], [])
    E_ = ip.get('katcp.core:AsyncEvent')
    for n in ('_running', '_connected', '_received_protocol_info', '_stopped', '_disconnected'):
        c.attrs[n] = ip.call(E_, [], {'ioloop': ws.loop})
    c.attrs.update(_ioloop=ws.loop, ioloop_thread_id=1)
    return c


def c_client_until(cx, name):
    """until_*: over exactly when the client has been seen running and then in the state asked for, within one timeout"""
    ws = Waits(cx)
    ip = cx.interp
    c = client(cx, ws)
    stages = EVENTS[name]
    on = {}
    for n in stages:
        on[n] = cx.pick(n, ['set', 'clear']) == 'set'
        if on[n]:
            ip.call(ip.getattr(c.attrs[n], 'set'), [])
    T = ws.timeout('timeout')
    start = ws.loop.now.t
    st, f = attempt(ip, ip.getattr(c, name), *([] if T is None and cx.pick('arg', ['no', 'yes']) == 'no' else [T]))
    cx.prove('a wait can always be started', st == 'ok', info=ename(f))
    w = ws.wait(name, f)
    at = 0
    while at < len(stages) and on[stages[at]]:
        at += 1
    for _ in range(4):
        ws.drain()
        while at < len(stages) and on[stages[at]]:
            at += 1
        if at == len(stages):
            cx.prove('every waiter is released exactly once when its condition holds', len(w.got) == 1 and w.got[0][0] == 'result', info=(w.got, on))
            cx.prove('no timer stays', not ws.loop.active())
            return
        w.pending(name)
        act = ws.loop.active()
        cx.prove('the timeout covers the whole wait', (T is None and not act) or T is not None and len(act) == 1 and t(act[0].when) == start + T.t, info=(name, len(act)))
        opts = [('set', n) for n in stages if not on[n]] + [('clear', n) for n in stages if on[n]] + ([('expire', None)] if act else [])
        what, n = cx.pick('next', opts)
        if what == 'expire':
            ws.fire()
            ws.drain()
            w.timed_out(name)
            return
        ws.later()
        ip.call(ip.getattr(c.attrs[n], what), [])
        on[n] = what == 'set'


def c_client_wait(cx):
    """wait_*: the blocking wait on the matching event, with the timeout given"""
    ws = Waits(cx)
    ip = cx.interp
    c = client(cx, ws)
    name, ev = cx.pick('wait', [('wait_running', '_running'), ('wait_connected', '_connected'), ('wait_disconnected', '_disconnected'),
                                ('wait_protocol', '_received_protocol_info')])
    T = ws.timeout('limit')
    seen = []
    cx.stubs['katcp.core:AsyncEvent.wait_with_ioloop'] = lambda ip2, a, k: seen.append((a, k)) or 'the answer'
    st, r = attempt(ip, ip.getattr(c, name), *([] if T is None else [T]))
    cx.prove('a blocking wait asks the event', st == 'ok' and r == 'the answer' and len(seen) == 1, info=ename(r))
    a, k = seen[0]
    k = dict(k)
    a = list(a) + [None] * 3
    T2 = k.get('timeout', a[2])
    cx.prove('of the right kind, in the ioloop of the client, for the time given', a[0] is c.attrs[ev] and (a[1] or k.get('ioloop')) is ws.loop and
             (T2 is None if T is None else T2 is not None and ip.eq(T2, T)))


CONTRACTS = {
    'event': (c_event, {'split': ['fresh', 'waiting', 'set', 'cleared']}),
    'event-reentrant': (c_event_reentrant, {}),
    'callback-event': (c_callback_event, {}),
    'blocking-wait': (c_blocking, {}),
    'state': (c_state, {'split': [(a, b) for a in ('set', 'wait', 'wait in') for b in ('set', 'wait', 'wait in', 'expire') if (a, b) != ('set', 'expire')]}),
    'state-initial': (c_state_initial, {}),
    'state-two': (c_state_two, {}), 'state-reentrant': (c_state_reentrant, {}),
    'any-1': (lambda cx: c_any(cx, 1), {}), 'any-2': (lambda cx: c_any(cx, 2), {'bounded': 'two futures'}), 'any-3': (lambda cx: c_any(cx, 3), {'bounded': 'three futures'}),
    'any-shared': (c_any_shared, {'bounded': 'two futures'}),
    'some-args': (lambda cx, n: c_some(cx, n, "args"), {'split': [0, 1, 2], 'bounded': 'two futures'}),
    'some-keys': (lambda cx, n: c_some(cx, n, 'keys'), {'split': [1, 2], 'bounded': 'two futures'}),
    'timeout-manager': (c_manager, {}), 'later': (c_later, {}),
    'client-until': (c_client_until, {'split': sorted(EVENTS)}), 'client-wait': (c_client_wait, {}),
}
