"""C11 executable contract: a sampling request takes effect as requested and reports it, or fails and changes nothing."""
from net import *      # noqa
from msgspec import spec_parse
import math
from katcp import DeviceServer, ProtocolFlags, Sensor

RULE = 'random histories of single and bulk sensor-sampling requests, queries and clears of two clients on sensors of every kind, with valid, missing, superfluous, unparsable and out-of-range parameters, for protocols 4.0, 5.0 and 5.1; after each request the strategy of every sensor is queried by every client and compared'
BOUNDS = '2 clients, 5 sensors, up to 14 requests; 24 parameter literals'
FUNCTIONS = ['server.DeviceServer._handle_sensor_sampling', 'server.DeviceServer._handle_bulk_set_sensor_sampling', 'server.DeviceServer.request_sensor_sampling',
             'sampling.SampleStrategy.get_strategy', 'sampling.Sample*.__init__', 'server.DeviceServer.request_sensor_sampling_clear']
LITS = [b'1', b'0', b'-1', b'0.5', b'2', b'10', b'1e3', b'nan', b'NaN', b'-nan', b'inf', b'-inf', b'1e400', b'abc', b'', b'1.0', b'007', b'100000', b'0.0', b'-0.0', b'+3', b'1e-3', b'\xff', b'3,4']
SENSORS = ['i', 'f', 's', 'b', 't']
STRATS = [b'none', b'auto', b'event', b'period', b'differential', b'event-rate', b'differential-rate']


def cases(h):
    r = h.rng
    for proto in ('4.0', '5.0', '5.1'):
        for s in STRATS:
            for sensor in SENSORS:
                ops = [(0, sensor, None, []), (0, sensor, b'auto', [])]
                for n in (range(4) if h.thorough or sensor != 's' else [2]):
                    good = [[b'2', b'3', b'4'][:n], [b'0.5', b'1', b'2'][:n]]
                    bad = [[r.choice(LITS) for _ in range(n)] for _ in range(h.n(1, 30))]
                    ops += [(0, sensor, s, p) for p in good + bad]
                yield 'history', (proto, ops)
    for l in LITS:
        for proto in ('4.0', '5.0', '5.1'):
            yield 'history', (proto, [(0, 'i', b'period', [l]), (0, 'f', b'differential', [l]), (1, 'i', b'differential', [l]), (1, 'f', b'event-rate', [b'1', l]),
                                      (0, 'f', b'event-rate', [l, b'1000']), (0, 'f', b'differential-rate', [l, b'1', b'2']), (0, 'i', b'differential-rate', [l, b'1', b'2']),
                                      (0, 't', b'differential', [l]), (0, 'f', b'differential-rate', [b'1', l, b'2']), (0, 'f', b'differential-rate', [b'1', b'1', l])])
    for _ in range(h.n(60, 6000)):
        ops = []
        for _ in range(r.randrange(3, 15)):
            c = r.randrange(2)
            k = r.random()
            if k < .1:
                ops.append((c, None, None, []))
            elif k < .2:
                ops.append((c, r.choice(SENSORS + ['nope', '']), None, []))
            else:
                names = r.choice(SENSORS) if r.random() < .6 else ','.join(r.choice(SENSORS + (['nope'] if r.random() < .1 else [])) for _ in range(r.randrange(2, 5)))
                st = r.choice(STRATS + [b'what', b''] * (r.random() < .1))
                n = {b'period': 1, b'differential': 1, b'event-rate': 2, b'differential-rate': 3}.get(st, 0)
                if r.random() < .1:
                    n = r.randrange(4)
                ops.append((c, names, st, [r.choice([b'1', b'2', b'3', b'5'] if r.random() < .8 else LITS) for _ in range(n)]))
        yield 'history', (r.choice(['4.0', '5.0', '5.1', '5.1']), ops)


def num(f, lit):
    try:
        v = f(lit)
    except (ValueError, OverflowError):
        return None
    return None if v != v else v


def valid(major, sensor, st, ps):
    n = {b'period': 1, b'differential': 1, b'event-rate': 2, b'differential-rate': 3}.get(st, 0)
    if st not in STRATS or (major == 4 and st in (b'event-rate', b'differential-rate')) or len(ps) != n:
        return False
    if st == b'period':
        v = num(float, ps[0])
        return v is not None and v > 0 and (major > 4 or math.isfinite(v))      # in version 4 a number of milliseconds
    if st in (b'differential', b'differential-rate'):
        kind = {'i': int, 'f': float}.get(sensor, float if sensor == 't' and st == b'differential' else None)
        if kind is None:
            return False
        v = num(kind, ps[0])
        if v is None or v < 0 or (v == 0 and st == b'differential'):
            return False
        ps = ps[1:]
    if st in (b'event-rate', b'differential-rate'):
        a, b = num(float, ps[0]), num(float, ps[1])
        return a is not None and b is not None and 0 <= a <= b
    return True


def same_params(major, st, got, want):
    """the reported parameters denote the requested ones"""
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if g == w:
            continue
        try:
            a, b = float(g), float(w)
        except ValueError:
            return False
        if not (a == b or major == 4 and st == b'period' and math.isfinite(a) and math.isfinite(b) and abs(a - b) <= .5 + 1e-9 * abs(a)):
            return False
    return True


def case_history(h, pr):
    proto, ops = pr
    major = int(proto[0])
    bulk = proto == '5.1'

    class Dev(DeviceServer):
        PROTOCOL_INFO = ProtocolFlags(major, int(proto[2]), [b'M'] + ([b'I'] if major > 4 else []) + ([b'B'] if bulk else []))
        VERSION_INFO = ('a', 1, 0)
        BUILD_INFO = ('b', 1, 0, '')

        def setup_sensors(self):
            for n, s in (('i', Sensor.integer('i')), ('f', Sensor.float('f')), ('s', Sensor.string('s')), ('b', Sensor.boolean('b')), ('t', Sensor.timestamp('t'))):
                self.add_sensor(s)
    with World() as w:
        dev = w.serve(Dev('127.0.0.1', 0))
        cs = [w.connect(dev), w.connect(dev)]
        model = {(c, s): (b'none', []) for c in range(2) for s in SENSORS}

        def ask(c, args):
            cs[c].lines()
            cs[c].send(b'?sensor-sampling' + (b' ' + b' '.join((a.replace(b'\\', b'\\\\') or b'\\@') for a in args) if args else b'') + b'\n')
            rs = [m for m in [spec_parse(l) for l in cs[c].lines()] if m[0] == 1]
            h.check('one reply', len(rs) == 1 and rs[0][1] == 'sensor-sampling', '%r %r' % (args, rs))
            return list(rs[0][3])
        for i, (c, names, st, ps) in enumerate(ops):
            if st in (b'event-rate', b'differential-rate') and ps and num(float, ps[-1]) == 0:
                continue                # sends without pause
            args = [] if names is None else [names.encode()] if st is None else [names.encode(), st] + ps
            rep = ask(c, args)
            nl = [] if names is None else names.split(',') if bulk and (st is not None or ',' in names) else [names]
            what = '%s, request %d %r: %r' % (proto, i, args, rep)
            if st is None:
                ok = len(nl) == 1 and nl[0] in SENSORS
                h.check('a query of one known sensor is answered, another refused', (rep[0] == b'ok') == ok, what)
                if ok:
                    w_st, w_ps = model[c, nl[0]]
                    h.check('a query reports the current strategy', rep[1] == names.encode() and rep[2] == w_st and same_params(major, w_st, rep[3:], w_ps), what)
            else:
                ok = nl and all(n in SENSORS for n in nl) and all(valid(major, n, st, ps) for n in nl)
                h.check('a request is accepted exactly if it is valid', (rep[0] == b'ok') == bool(ok), what)
                if ok:
                    h.check('the reply reports what was requested', rep[1] == names.encode() and rep[2] == st and same_params(major, st, rep[3:], ps), what)
                    for n in nl:
                        model[c, n] = (st, ps)
            h.check('a failure says why', rep[0] == b'ok' or len(rep) >= 2 and rep[0] in (b'fail', b'invalid') and rep[1] != b'', what)
            h.nontrivial((proto, st, len(ps), rep[0], names))
            for (cc, n), (w_st, w_ps) in model.items():
                if i < len(ops) - 1 and not (cc == c and n in nl) and (i * 7 + ord(n) * 3 + cc + len(names or '')) % 5:
                    continue
                rep2 = ask(cc, [n.encode()])
                h.check('every strategy is what was last requested successfully', rep2[0] == b'ok' and rep2[2] == w_st and same_params(major, w_st, rep2[3:], w_ps),
                        '%s then %r says %r, expected %r' % (what, (cc, n), rep2, (w_st, w_ps)))
                cl = [x for x in dev._client_conns if x._conn_key.KATCPServer_address == cs[cc].s.getsockname()]
                if cl:
                    s = dev._strategies[cl[0]].get(dev._sensors[n])
                    h.check('and is in force', (s is None) == (w_st == b'none'), what)
