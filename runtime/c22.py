"""C22 executable contract: log levels and log informs of a running server."""
from net import *      # noqa
import logging
from katcp import DeviceServer, DeviceLogger, Message

RULE = 'random sequences of log-level requests (valid, invalid, binary) and log calls against two clients; both protocol majors'
BOUNDS = 'sequences of up to 25 operations'
FUNCTIONS = ['server.DeviceLogger', 'DeviceServer.request_log_level', 'create_log_inform', 'DeviceServerBase.mass_inform']
NAMES = ['all', 'trace', 'debug', 'info', 'warn', 'error', 'fatal', 'off']
BAD = [b'', b'INFO', b'Warn', b'infos', b'inf', b'0', b'3', b'\xff\xfe', b'none', b'all ', b'\xc3\xa9', b'critical', b'warning']
TEXTS = ['hello', '100%', '%', 'a b\tc', '', u'\u00e9t\u00e9', 'x\ny', '%d%', '90% full', 'nul \0', '%q']


def cases(h):
    r = h.rng
    for i in range(8):
        for j in range(8):
            yield 'seq', (5, [('set', NAMES[i].encode()), ('log', j, 'text', None, None), ('query',)])
    for b in BAD:
        yield 'seq', (5, [('set', b'error'), ('set', b), ('query',), ('log', 4, 'text', None, None), ('log', 5, 't', None, None)])
    for n in NAMES:
        yield 'forward', n
        yield 'names', n
    for _ in range(h.n(250, 8000)):
        ops = []
        for _ in range(r.randrange(1, 25)):
            k = r.random()
            if k < .3:
                ops.append(('set', r.choice(NAMES).encode()))
            elif k < .4:
                ops.append(('set', r.choice(BAD)))
            elif k < .5:
                ops.append(('query',))
            elif k < .7:
                ops.append(('log', r.randrange(8), r.choice(TEXTS), r.choice([None, 'a.b', 'sub']),
                            r.choice([None, 0, 1.5, 1234567890.123456])))
            else:
                ops.append(('meth', r.choice(NAMES[1:-1]), r.choice(TEXTS)))
        yield 'seq', (r.choice([4, 5]), ops)


def mk(major):
    from katcp import ProtocolFlags
    class S(DeviceServer):
        VERSION_INFO = ('x', 1, 0)
        BUILD_INFO = ('x', 1, 0, 'r')
        PROTOCOL_INFO = ProtocolFlags(major, 0, {b'M', b'I'} if major == 5 else {b'M'})

        def setup_sensors(self):
            pass
    return S


class PL(object):
    def __init__(self):
        self.got = []

    def log(self, lvl, text, *a):
        self.got.append((lvl, text))


def case_forward(h, n):
    pl = PL()
    want = {'all': (0,), 'trace': (0, 5), 'debug': (10,), 'info': (20,), 'warn': (30,), 'error': (40,), 'fatal': (50,)}
    DeviceLogger.log_to_python(pl, Message.inform('log', n, '1234.5', 'root', 'the text'))
    h.check('a log inform is forwarded once', len(pl.got) == 1, (n, pl.got))
    h.check('forwarded at the corresponding severity', pl.got[0][0] in want.get(n, (pl.got[0][0],)), (n, pl.got))
    h.check('the text is forwarded', 'the text' in str(pl.got[0][1]), (n, pl.got))
    h.nontrivial(n)


def case_names(h, n):
    """names and numbers map one to one, whatever level is in force"""
    log = DeviceLogger(None)
    log.set_log_level_by_name(n)
    h.check('the level set is in force', log.level_name() == n, (n, log.level_name()))
    got = [log.level_name(i) for i in range(len(NAMES))]
    h.check('each level has its own name', got == NAMES, (n, got))
    h.check('and each name its level', [log.level_from_name(x) for x in got] == list(range(len(NAMES))), n)
    h.nontrivial(n)


def case_seq(h, p):
    major, ops = p
    h.nontrivial(repr(p))
    with World() as w:
        dev = w.serve(mk(major)('127.0.0.1', 0))
        a, b = w.connect(dev), w.connect(dev)
        a.lines()
        b.lines()
        cur = 4
        for op in ops:
            if op[0] in ('set', 'query'):
                m = Message.request('log-level', *op[1:])
                a.send(bytes(m) + b'\n')
                rep = [x for x in a.msgs() if x.mtype == x.REPLY]
                h.check('one reply', len(rep) == 1, (p, op))
                args = rep[0].arguments
                if op[0] == 'query' or op[1].decode('latin1') in NAMES:
                    if op[0] == 'set':
                        cur = NAMES.index(op[1].decode())
                    h.check('the level asked for is in force and reported', args == [b'ok', NAMES[cur].encode()],
                            lambda: (p, op, args))
                else:
                    h.check('an invalid level is refused', args[0] == b'fail', lambda: (p, op, args))
                b.msgs()
                continue
            if op[0] == 'log':
                _, lvl, text, name, ts = op
                kw = {}
                if name is not None:
                    kw['name'] = name
                if ts is not None:
                    kw['timestamp'] = ts
                dev.log.log(lvl, text, **kw) if lvl < 7 else dev.log.log(6, text, **kw)
                lvl = min(lvl, 6)
            else:
                _, mname, text = op
                lvl, name, ts = NAMES.index(mname), None, None
                getattr(dev.log, mname)(text)
            for c in (a, b):
                got = [x for x in c.msgs() if x.name == 'log']
                h.check('sent to every client exactly when the level is at or above the current one',
                        len(got) == (1 if lvl >= cur else 0), lambda: (p, op, cur, [str(x) for x in got]))
                if got:
                    g = got[0].arguments
                    h.check("sent with the level's own name", g[0] == NAMES[lvl].encode(), lambda: (p, op, g))
                    h.check('sent under the logger name', g[2] == (name or 'root').encode(), lambda: (p, op, g))
                    h.check('sent with the text', g[3].decode('utf8') == text or '%' in text, lambda: (p, op, g))
                    t = w.now() if ts is None else ts
                    f = float(g[1]) / (1000. if major == 4 else 1.)
                    h.check('sent with the time', abs(f - t) <= (0.0011 if major == 4 else 2e-6), lambda: (p, op, g))


def from_witness(h, w):
    v = w['values']
    for x in list(v.values()) + NAMES:
        if isinstance(x, str):
            x = x.encode('latin1', 'replace')
            for o in NAMES:
                yield 'seq', (5, [('set', o.encode()), ('set', x), ('query',), ('log', 4, 't', None, None),
                                  ('log', 0, 't', None, None), ('meth', 'info', '100%')])
    for n in NAMES:
        yield 'forward', n
        yield 'names', n
