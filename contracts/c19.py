"""C19: contracts on the query requests: any population, any filter argument."""
from .common import *          # noqa

MODULES = ['core', 'kattypes', 'server']
UNDER_CONTRACT = ['server.construct_name_filter', 'server.DeviceServer.request_help', '...request_sensor_list', '..._send_sensor_value_informs',
                  '...request_sensor_value', '...request_client_list', '...request_version_list', '...request_request_timeout_hint']
ASSUMPTIONS = ['re.compile refuses a bad pattern; otherwise search() of the compiled pattern is a fixed relation between pattern and name',
               'sorted() of distinct (name, x) pairs or names is in name order; dict and set iteration yields every element once',
               'a handler that raises gives one fail reply (proved under C06); how informs and replies of a handler reach the client: C07',
               'what read_formatted() and formatted_params say about a sensor is the subject of C03 and C09']

SRC = '''
class Sensor(object):
    def __init__(self, name, fresh):
        self.name = name
        self.description, self.units, self.stype = fresh('description'), fresh('units'), fresh('stype')
        self.formatted_params = [fresh('param') for _ in range(number())]
        self.readings = {4: (fresh('ts'), fresh('status'), fresh('value')), 5: (fresh('ts'), fresh('status'), fresh('value'))}
    def read_formatted(self, major=5):
        return self.readings[major]
class Conn(object):
    def __init__(self, address):
        self.address = address
class Handler(object):
    def __init__(self, doc, hint=None):
        self.__doc__ = doc
        if hint is not None:
            self.request_timeout_hint = hint
class Req(object):
    def __init__(self, log):
        self.log = log
    def inform(self, *args):
        self.log.append(('inform',) + args)
    def make_reply(self, *args):
        return ('reply',) + args
class D(Base):
    """device"""
    def __init__(self):
        pass
    def version(self):
        return 'the-version'
    def build_state(self):
        return 'the-build'
'''


class Each(EachHook):
    """Every element is informed about once, or not at all, as the request demands; nothing else happens. A local that counts
    informs is known to be their number afterwards; a dict or list that is filled is known to hold what the body puts there."""

    def __init__(self, q, many, node):
        self.q, self.many, self.node = q, many, node
        self.n = None

    def entry(self, ip, env, names):
        self.counters = {nm: env.vars[nm] for nm in names if nm in env.vars and isinstance(env.vars[nm], (int, SInt))}
        used = {x.id for s in self.node.body for x in ast.walk(s) if isinstance(x, ast.Name)}
        self.filled = {nm: env.vars[nm] for nm in used if nm in env.vars and (
            env.vars[nm] == [] and isinstance(env.vars[nm], list) or type(env.vars[nm]) is IDict and not env.vars[nm].items and env.vars[nm].rest is None)}

    def before(self, ip, env, names):
        for nm in names:
            if nm in self.counters:
                env.vars[nm] = SInt(z3.Int(ip.cx.name(nm)))
            else:
                env.vars.pop(nm, None)

    def fresh_filled(self, env):
        for nm, v in self.filled.items():
            env.vars[nm] = IDict() if isinstance(v, IDict) else []

    def begin(self, ip, env, x):
        q = self.q
        self.at = {nm: env.vars[nm] for nm in self.counters}
        self.fresh_filled(env)
        self.mark = len(q.log)

    def end(self, ip, env, x):
        q = self.q
        sent = q.log[self.mark:]
        fills = any(isinstance(env.vars[nm], IDict) and env.vars[nm].items or not isinstance(env.vars[nm], IDict) and env.vars[nm] != []
                    for nm in self.filled)
        if self.filled and not sent:
            # collecting: nothing is sent, the collection is judged where it is used
            for nm, v in self.at.items():
                if not ip.truth(ip.eq(env.vars[nm], v)):
                    raise Unsupported('a counter of what is collected')
            return
        if fills:
            raise Unsupported('a loop that collects and informs')
        q.judge(self.many)
        item = q.root.picked if isinstance(q.root, IDict) else x
        want = q.match(item)
        q.cx.prove('exactly one inform for a matching item, none for others', len(sent) == 1 and want if sent else z3.Not(want) if z3.is_expr(want) else not want,
                   info=sent)
        for e in sent:
            q.describes(e[1:], item)
        for nm, v in self.at.items():
            if not ip.truth(ip.eq(env.vars[nm], ip.binop(ast.Add(), v, len(sent)))):
                raise Unsupported('local %s does not count informs' % nm)

    def broken(self, ip, env, x):
        if self.filled:
            raise Unsupported('break out of a loop over an unknown collection')
        self.q.cx.prove('every matching item is informed about', False, info='the loop is left early')
        raise PathEnd()

    def after(self, ip, env, names):
        q = self.q
        if self.filled and q.collects(self, ip, env):
            for nm in names:
                env.vars.pop(nm, None)
            return
        n = self.many.size
        if not q.informs_always(self):
            if not self.counters:
                raise Unsupported('the number of informs of a loop that does not always inform')
            n = z3.Int(ip.cx.name('informs'))
            ip.cx.assume(z3.And(n >= 0, n <= self.many.size))
        for nm in names:
            if nm in self.counters:
                env.vars[nm] = ip.binop(ast.Add(), self.counters[nm], SInt(n))
            else:
                env.vars.pop(nm, None)
        q.total = q.total + n
        q.loops.append(self.many)


class Query(object):
    """one query request on a device with any population"""

    def __init__(self, cx, root, pattern=None, sort=True):
        self.cx, self.ip = cx, cx.interp
        self.root, self.pattern, self.sort = root, pattern, sort
        self.log = []
        self.total = z3.IntVal(0)
        self.loops = []
        self.judging = False
        cx.loops['for'] = self.hook

    def hook(self, ip, n, env, many):
        if many.root().src is not self.root:
            return None
        return Each(self, many, n)

    def informs_always(self, each):
        """the body gets to a call of inform() unconditionally"""
        for st in each.node.body:
            if any(isinstance(x, ast.Attribute) and x.attr == 'inform' for x in ast.walk(st)):
                return isinstance(st, (ast.Expr, ast.Assign))
            if any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(st)):
                return False
        return False

    def collects(self, each, ip, env):
        body, target = each.node.body, each.node.target
        if any(isinstance(x, ast.Attribute) and x.attr == 'inform' for s in body for x in ast.walk(s)):
            return False
        base = dict(env.vars)

        def run(ip2, x, nm):
            env.vars.update(base)
            for k in [k for k in env.vars if k not in base]:
                del env.vars[k]
            tmp = env.vars[nm] = IDict() if isinstance(each.filled[nm], IDict) else []
            ip2.assign(target, x, env)
            try:
                ip2.block(body, env)
            except I.ContinueSig:
                pass
            finally:
                env.vars.update(base)
                for k in [k for k in env.vars if k not in base]:
                    del env.vars[k]
                env.vars[nm] = results[nm]
            return tmp
        results = dict(each.filled)
        for nm, v in each.filled.items():
            def test(x, nm=nm):
                tmp = run(ip, x, nm)
                got = [tuple(i) for i in tmp.items] if isinstance(tmp, IDict) else tmp
                if len(got) > 1:
                    raise Unsupported('collects more than one thing per element')
                state['got'] = got
                return bool(got)
            state = {}
            base[nm] = v
            m = each.many.derive(ip, lambda x: state['got'][0], test)
            results[nm] = env.vars[nm] = base[nm] = I.dict_from(m) if isinstance(v, IDict) else m
            if isinstance(v, IDict):
                results[nm].pairs.order = None
        return True

    def judge(self, many):
        """the collection looped over: everything that matches, by name, in order"""
        if many in self.loops:
            return
        cx, ip = self.cx, self.ip
        if self.sort:
            o = many.order
            if o is None:
                if getattr(many, 'label', '').startswith('sorted'):
                    raise Unsupported('sorted by a key')
                cx.prove('informs are in sorted order', False)
            if cx.choose(2, None) == 1:
                taken, x = o.outcome(ip)
                if taken:
                    k = x[0] if isinstance(x, tuple) else x
                    if not k is self.root.picked[0]:
                        raise Unsupported('sorted by something else than names')
                raise PathEnd()
        if cx.choose(2, None) == 1:
            taken, x = many.outcome(ip)
            want = self.match(self.picked_of(many, x))
            cx.prove('exactly the matching items are chosen', want if taken else z3.Not(want) if z3.is_expr(want) else not want)
            raise PathEnd()

    def picked_of(self, many, x):
        return self.root.picked if isinstance(self.root, IDict) else many.picked_elem if hasattr(many, 'picked_elem') else x

    def match(self, item):
        """does the item match the query (host bool or z3)?"""
        return True

    def describes(self, args, item):
        raise NotImplementedError

    def finish(self, st, x, unknown):
        """the reply; unknown: condition under which the query has to fail"""
        cx = self.cx
        flat = [e for e in self.log if e[0] == 'inform']
        if st == 'raise' or not (isinstance(x, tuple) and x[0] == 'reply' and x[1] in ('ok', b'ok')):
            cx.cover('failed')
            cx.prove('a failed query sends no informs', not flat and not self.loops, info=flat)
            cx.prove('only an unknown name or a bad pattern fails', unknown)
            return
        cx.cover('answered')
        cx.prove('an unknown name fails', z3.Not(unknown) if z3.is_expr(unknown) else not unknown)
        cx.prove('the reply has one count', len(x) == 3)
        n = count_of(x[2])
        if n is None:
            raise Unsupported('count %r' % (x[2],))
        cx.prove('the count is the number of informs', n == self.total + len(flat))


def count_of(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, (str, bytes)):
        return z3.IntVal(int(v)) if v.isdigit() else z3.IntVal(-1)
    return decimal_of(v)


import ast            # noqa


def device(cx, log):
    ip = cx.interp
    cx.ghost['coroutines'] = True
    ns = run_src(ip, SRC, Base=ip.get('katcp.server:DeviceServer'), fresh=ip.lib.N(lambda n: cx.str(n), 'fresh'),
                 number=ip.lib.N(lambda: cx.pick('number of parameters', [0, 2]), 'number'))
    dev = ip.call(ns['D'], [])
    return ns, dev, ip.call(ns['Req'], [log])


def distinct(cx, d, name):
    for k, _ in d.items:
        cx.assume(t(k) != name.t)
    for k in d.excluded:
        cx.assume(t(k) != t(name))
    return name


def argument(cx, what=('none', 'text', 'not text')):
    """(arguments of the message, pattern text or None, 'not text')"""
    k = cx.pick('argument', what)
    if k == 'none':
        return [], None
    if k == 'text':
        p = cx.bytes('arg')
        st, x = attempt(cx.interp, cx.interp.getattr(p, 'decode'), 'utf-8')
        if st == 'raise':
            return [p], False
        return [p], x
    return [b'\xff\xfe'], False


def message(cx, name, args):
    ip = cx.interp
    return ip.call(ip.getattr(ip.get('katcp.core:Message'), 'request'), [name] + args)


SEARCH = z3.Function('re_search', z3.StringSort(), z3.StringSort(), z3.BoolSort())


def is_pattern(p):
    return z3.And(z3.PrefixOf(zs('/'), p), z3.SuffixOf(zs('/'), p))


def matches(p, name):
    if p is None:
        return True
    return z3.If(is_pattern(p.t), SEARCH(z3.SubString(p.t, 1, z3.Length(p.t) - 2), t(name)), t(name) == p.t)


def c_filter(cx):
    """construct_name_filter for every pattern and name."""
    ip = cx.interp
    p = cx.str('pattern') if cx.pick('pattern', ['given', 'none']) == 'given' else None
    if p is not None:
        cx.assume(p.t != zs('/'))
    name = cx.str('name')
    st, x = attempt(ip, ip.get('katcp.server:construct_name_filter'), p)
    if st == 'raise':
        cx.prove('only a bad pattern is refused', p is not None and isinstance(x, __import__('re').error) and is_pattern(p.t), info=ename(x))
        return
    exact, f = x
    cx.prove('exactness', z3.Not(is_pattern(p.t)) == ip.zbool(exact) if p is not None else not ip.truth(exact))
    st, r = attempt(ip, f, name)
    cx.prove('filtering never raises', st == 'ok')
    r = ip.truth(r)
    w = matches(p, name)
    cx.prove('a name passes exactly if it matches', (w if r else z3.Not(w)) if z3.is_expr(w) else r == w)


class SensorQuery(Query):
    what = None

    def match(self, item):
        return matches(self.pattern, item[0])

    def describes(self, args, item):
        cx, ip, s = self.cx, self.ip, item[1]
        if self.what == 'sensor-list':
            want = [item[0], s.attrs['description'], s.attrs['units'], s.attrs['stype']] + list(s.attrs['formatted_params'])
        else:
            ts, status, value = ip.getitem(s.attrs['readings'], self.major)
            want = [ts, '1', item[0], status, value]
        cx.prove('the inform describes the item', len(args) == len(want) and all(a is b or a == b for a, b in zip(args, want)), info=(args, want))


def c_sensors(cx, what=None):
    ip = cx.interp
    what = what or cx.pick('request', ['sensor-list', 'sensor-value'])
    d = IDict()
    q = SensorQuery(cx, d)
    q.what = what
    ns, dev, req = device(cx, q.log)

    def fresh(ip2):
        nm = distinct(cx, d, cx.str('sensor'))
        return nm, ip2.call(ns['Sensor'], [nm, ip2.lib.N(lambda n: cx.str(n), 'fresh')])
    d.rest = lambda ip2, key: ip2.call(ns['Sensor'], [key, ip2.lib.N(lambda n: cx.str(n), 'fresh')])
    d.many = fresh
    args, p = argument(cx)
    q.pattern = p if p is not False else None
    q.major = cx.pick('major', [4, 5])
    dev.attrs.update(_sensors=d, PROTOCOL_INFO=ip.call(ip.get('katcp.core:ProtocolFlags'), [q.major, 0, [b'M']]))
    if args and p is not False:
        cx.assume(p.t != zs('/'))
    st, x = attempt(ip, ip.getattr(dev, 'request_' + what.replace('-', '_')), req, message(cx, what, args))
    if p is False or p is None:
        return q.finish(st, x, z3.BoolVal(p is False))
    if st == 'raise':
        cx.prove('only a bad pattern or a name that is no text raises', isinstance(x, UnicodeDecodeError) or isinstance(x, __import__('re').error) and is_pattern(p.t), info=ename(x))
        cx.prove('nothing was sent before', not q.log and not q.loops)
        return
    if x[1] in ('fail', b'fail'):
        cx.cover('unknown')
        cx.prove('a failed query sends no informs', not q.log and not q.loops)
        cx.prove('a pattern that matches nothing does not fail', z3.Not(is_pattern(p.t)))
        # no sensor of that name: the chosen ones, none, are all the matching ones
        ms = [m for m in cx.ghost.get('derived', []) if m.root().src is d]
        if any(k is p or ip.truth(ip.eq(k, p)) for k in d.excluded):
            return
        if not ms:
            raise Unsupported('how was it found that the name is unknown?')
        cx.prove('fails only if no sensor is chosen', ms[-1].size == 0)
        q.sort = False
        q.judge(ms[-1])
        return
    q.finish(st, x, z3.And(z3.Not(is_pattern(p.t)), q.total == 0) if q.loops else z3.BoolVal(False))


class HelpQuery(Query):
    def describes(self, args, item):
        self.cx.prove('the inform describes the item', len(args) == 2 and args[0] is item[0] and args[1] is item[1].attrs['__doc__'], info=(args, item))


class HintQuery(Query):
    def match(self, item):
        h = item[1].attrs.get('request_timeout_hint')
        return h is not None and h.t != 0

    def describes(self, args, item):
        h = item[1].attrs.get('request_timeout_hint')
        self.cx.prove('the inform describes the item', len(args) == 2 and args[0] is item[0] and t(args[1]) == h.t, info=(args, item))


def c_handlers(cx, what=None):
    ip = cx.interp
    what = what or cx.pick('request', ['help', 'request-timeout-hint'])
    d = IDict()
    q = (HelpQuery if what == 'help' else HintQuery)(cx, d)
    ns, dev, req = device(cx, q.log)

    def handler(ip2):
        h = None
        if cx.pick('hint', ['given', 'none']) == 'given':
            h = cx.real('hint')
            cx.assume(h.t >= 0)
        return ip2.call(ns['Handler'], ['documentation', h])

    def fresh(ip2):
        nm = cx.str('request')
        cx.assume(z3.Not(z3.Contains(nm.t, zs('_'))))          # the names handlers are offered under (proved under C24)
        return distinct(cx, d, nm), handler(ip2)
    d.rest = lambda ip2, key: handler(ip2)
    d.many = fresh
    dev.attrs.update(_request_handlers=d, PROTOCOL_INFO=ip.call(ip.get('katcp.core:ProtocolFlags'), [5, 1, [b'M', b'I', b'T']]))
    args, p = argument(cx)
    m = message(cx, what, args)
    st, x = attempt(ip, ip.getattr(dev, 'request_' + what.replace('-', '_')), req, m)
    if st == 'ok' and isinstance(x, IObj):
        x = ('reply',) + tuple(ip.items_of(x.attrs['arguments']))
    if not args:
        return q.finish(st, x, z3.BoolVal(False))
    if st == 'ok':
        cx.prove('it is answered by a reply', isinstance(x, tuple) and x[0] == 'reply')
    if st == 'raise' or x[1] in ('fail', b'fail'):
        cx.cover('unknown')
        cx.prove('a failed query sends no informs', not q.log and not q.loops)
        cx.prove('only unknown names fail', p is False or isinstance(x, BaseException) and isinstance(x, UnicodeError) or not d.items
                 and any(t(k).eq(p.t) for k in d.excluded), info=(ename(x), d.excluded))
        return
    cx.prove('an unknown name fails', len(d.items) == 1 and p is not False and t(d.items[0][0]) == p.t)
    cx.cover('known')
    cx.prove('one inform', len(q.log) == 1 and not q.loops, info=q.log)
    if len(q.log) != 1:
        raise PathEnd('reported')
    cx.prove('counted', len(x) == 3 and count_of(x[2]) == 1)
    e, (k, h) = q.log[0], d.items[0]
    if what == 'help':
        cx.prove('the inform describes the request', len(e) == 3 and e[1:] == ('inform', None)[:0] + (e[1], h.attrs['__doc__']) and t(e[1]) == p.t)
    else:
        v = h.attrs.get('request_timeout_hint')
        cx.prove('the inform describes the request', z3.And(t(e[1]) == p.t, t(e[2]) == (v.t if v is not None else 0)) if len(e) == 3 else False)


class ClientQuery(Query):
    def describes(self, args, item):
        self.cx.prove('the inform describes the item', len(args) == 1 and args[0] is item.attrs['address'])


def c_clients(cx):
    ip = cx.interp
    s = ISet()
    q = ClientQuery(cx, s, sort=False)
    ns, dev, req = device(cx, q.log)
    s.rest = lambda ip2, x: None
    s.many = lambda ip2: ip2.call(ns['Conn'], [cx.str('address')])
    dev.attrs.update(_client_conns=s)
    st, x = attempt(ip, ip.getattr(dev, 'request_client_list'), req, message(cx, 'client-list', []))
    q.finish(st, x, z3.BoolVal(False))
    cx.prove('looked at all clients once', len(q.loops) == 1 and not q.loops[0].live)


class VersionQuery(Query):
    def describes(self, args, item):
        name, (v, b) = item
        want = [name, v] if b is None else [name, v, b]
        self.cx.prove('the inform describes the item', len(args) == len(want) and all(a is b_ for a, b_ in zip(args, want)))


def c_versions(cx):
    ip = cx.interp
    d = IDict()
    q = VersionQuery(cx, d)
    ns, dev, req = device(cx, q.log)

    def value(ip2):
        return (cx.str('version'), cx.str('build') if cx.pick('build state', ['given', 'none']) == 'given' else None)
    d.rest = lambda ip2, key: value(ip2)
    d.many = lambda ip2: (distinct(cx, d, cx.str('component')), value(ip2))
    info = ip.call(ip.get('katcp.core:ProtocolFlags'), [5, 1, [b'M', b'I', b'T']])
    dev.attrs.update(extra_versions=d, PROTOCOL_INFO=info)
    st, x = attempt(ip, ip.getattr(dev, 'request_version_list'), req, message(cx, 'version-list', []))
    q.finish(st, x, z3.BoolVal(False))
    flat = [e[1:] for e in q.log]
    cx.prove('every further component', len(q.loops) == 1)
    cx.prove('the standard components first', [e[0] for e in flat] == ['katcp-protocol', 'katcp-library', 'katcp-device'], info=flat)
    cx.prove('their versions', flat[0][1] is info and len(flat[0]) == 2 and len(flat[1]) == 3 and flat[2][1:] == ('the-version', 'the-build'))


CONTRACTS = {'name filter': (c_filter, {}),
             'sensors': (c_sensors, {'split': ['sensor-list', 'sensor-value'], 'expect': ['answered', 'unknown', 'failed', 'loop iteration']}),
             'handlers': (c_handlers, {'split': ['help', 'request-timeout-hint'], 'expect': ['answered', 'unknown', 'known', 'loop iteration']}),
             'clients': (c_clients, {'expect': ['answered', 'loop iteration']}),
             'versions': (c_versions, {'expect': ['answered', 'loop iteration']})}
