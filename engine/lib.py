"""Library models: builtins, containers, string methods, tornado / threading / logging stand-ins."""
import ast
import builtins
import collections
import functools
import importlib
import itertools
import math
import numbers
import operator
import re
import struct
import textwrap
import types
import z3
from .core import *      # noqa
from .core import zs, R, UF
from . import interp as I
from . import strings as STR
from .interp import (MISSING, IModule, IFunc, IBound, IClass, IObj, NObj, Native, Opaque, IPartial, Prop,
                     ClsM, StatM, ISuper, MetaMarker, IDict, ISet, IFuture, LazyIter, SeqGen, ABCMark,
                     CoroFunc, AttrView, SUPER, FUNC_TYPE, NATIVE_TYPES, StarSeq, ListIter, IGen)

PASS_MODULES = {'re', 'struct', 'math', 'operator', 'itertools', 'textwrap', 'socket', 'os', 'string',
                'ipaddress', 'errno', 'inspect', 'signal', 'datetime', 'weakref'}


def deep_concrete(v, d=0):
    if v is None or isinstance(v, (bool, int, float, str, bytes, types.ModuleType, type, re.Pattern, re.Match,
                                   types.FunctionType, types.BuiltinFunctionType, range, slice,
                                   BaseException)):
        return True
    if isinstance(v, (list, tuple, set, frozenset)):
        return d < 6 and all(deep_concrete(x, d + 1) for x in v)
    return False


class NLogger(NObj):
    clsname = 'Logger'
    a_name = 'logger'
    a_level = 0

    def _nop(self, ip, *a, **k):
        return None
    m_debug = m_info = m_warn = m_warning = m_error = m_exception = m_critical = m_log = _nop
    m_setLevel = m_addHandler = m_fatal = m_trace = _nop

    def m_isEnabledFor(self, ip, *a):
        return False

    def m_getEffectiveLevel(self, ip):
        return 30


class NDecimal(NObj):
    '''decimal.Decimal(text): the number the text denotes; '{:f}' writes it without an exponent.'''
    clsname = 'Decimal'

    def __init__(self, src):
        self.src = src

    def fixed(self, ip):
        cx = ip.cx
        q = self.src.info[1] if self.src.info and self.src.info[0] == 'float' else UF['fparse'](self.src.t)
        r = STR.fixed_shape(ip, q, cx.choose(2, None) == 0)
        cx.axiom("'{:f}'.format(Decimal(text)) writes the same number as [-]digits[.digits]",
                 z3.And(UF['fok'](r), UF['fcls'](r) == 0, UF['fparse'](r) == q))
        return SStr(r, ('float', q))


class NLock(NObj):
    clsname = 'Lock'

    def m___enter__(self, ip):
        return self

    def m___exit__(self, ip, *a):
        return False

    def m_acquire(self, ip, *a, **k):
        return True

    def m_release(self, ip):
        return None


class NEvent(NObj):
    clsname = 'Event'

    def __init__(self):
        self.flag = False

    def m_set(self, ip):
        self.flag = True

    def m_clear(self, ip):
        self.flag = False

    def m_isSet(self, ip):
        return self.flag
    m_is_set = m_isSet

    def m_wait(self, ip, timeout=None):
        return self.flag


class NIOLoop(NObj):
    """IOLoop model: callbacks and timers are recorded; the contract decides what runs."""
    clsname = 'IOLoop'

    def __init__(self, now=None):
        self.callbacks = []
        self.timers = []
        self.now = now
        self.removed = []
        self.a__thread_ident = 1

    def m_time(self, ip):
        if self.now is None:
            self.now = ip.cx.real('now')
        return self.now

    def m_add_callback(self, ip, fn, *a, **k):
        self.callbacks.append((fn, a, k))

    m_add_callback_from_signal = m_add_callback
    m_spawn_callback = m_add_callback

    def m_add_future(self, ip, fut, cb):
        fut.m_add_done_callback(ip, Native(lambda ip2, a, k: self.m_add_callback(ip2, cb, a[0]), 'addfut'))

    def _timer(self, ip, when, fn, a, k):
        h = NObj()
        h.clsname = 'TimeoutHandle'
        h.when, h.fn, h.args, h.kw, h.active = when, fn, a, k, True
        self.timers.append(h)
        return h

    def m_call_later(self, ip, delay, fn, *a, **k):
        return self._timer(ip, ip.binop(ast.Add(), self.m_time(ip), delay), fn, a, k)

    def m_call_at(self, ip, when, fn, *a, **k):
        return self._timer(ip, when, fn, a, k)

    def m_add_timeout(self, ip, when, fn, *a, **k):
        return self._timer(ip, when, fn, a, k)

    def m_remove_timeout(self, ip, h):
        if not isinstance(h, NObj):
            raise PyExc(AttributeError('remove_timeout(%s)' % ip.show(h)))
        h.active = False
        self.removed.append(h)

    def active(self):
        return [h for h in self.timers if h.active]

    # driver API for contracts
    def run_next(self, ip):
        fn, a, k = self.callbacks.pop(0)
        return ip.call(fn, list(a), dict(k))

    def drain(self, ip, limit=50):
        n = 0
        while self.callbacks:
            n += 1
            if n > limit:
                raise Unsupported('callback queue does not drain')
            try:
                self.run_next(ip)
            except PyExc:
                ip.cx.ghost['ioloop_exc'] = ip.cx.ghost.get('ioloop_exc', 0) + 1

    def fire(self, ip, h):
        h.active = False
        return ip.call(h.fn, list(h.args), dict(h.kw))


class NWaitIterator(NObj):
    """tornado 4.5 gen.WaitIterator"""
    clsname = 'WaitIterator'

    def __init__(self, ip, args, kw):
        if args and kw:
            raise PyExc(ValueError('You must provide args or kwargs, not both'))
        self.ip = ip
        futures = list(kw.values()) if kw else list(args)
        self.unfinished = {}
        for i, f in (kw.items() if kw else enumerate(args)):
            self.unfinished[id(f)] = (f, i)
        self.finished = []
        self.a_current_index = self.a_current_future = None
        self.running = None
        for f in futures:
            f.m_add_done_callback(ip, Native(lambda ip2, a, k: self.done_cb(a[0]), 'wait'))

    def done_cb(self, f):
        if self.running is not None and self.running.state == 'pending':
            self.give(f)
        else:
            self.finished.append(f)

    def give(self, f):
        self.running._finish(self.ip, f.state, f.value)
        self.a_current_future = f
        if id(f) not in self.unfinished:
            raise PyExc(KeyError('future'))
        self.a_current_index = self.unfinished.pop(id(f))[1]

    def m_done(self, ip):
        if self.finished or self.unfinished:
            return False
        self.a_current_index = self.a_current_future = None
        return True

    def m_next(self, ip):
        self.running = IFuture()
        if self.finished:
            self.give(self.finished.pop(0))
        return self.running


BADYIELD = IClass('BadYieldError', [Exception], {}, None, 'tornado.gen')


class Return_(Exception):
    pass


class Lib(object):
    def __init__(self, ip):
        self.ip = ip
        self.mods = {}
        self.build()

    def reset(self):
        self.clock = None

    # ------------------------------------------------------------ builtins
    def builtin(self, name):
        if name in self.B:
            return self.B[name]
        if name == 'unicode' or name == 'long':
            raise PyExc(NameError(name))
        v = getattr(builtins, name, MISSING)
        if v is MISSING:
            raise PyExc(NameError("name '%s' is not defined" % name))
        return v

    def build(self):
        ip = self.ip
        B = self.B = {}

        def reg(name):
            def d(f):
                B[name] = Native(lambda ip, a, k, f=f: f(*a, **k), name)
                return f
            return d

        @reg('len')
        def _len(v):
            return self.len_(v)

        @reg('isinstance')
        def _isinstance(v, c):
            return ip.isinstance_(v, c)

        @reg('issubclass')
        def _issub(c, d):
            if isinstance(d, tuple):
                return any(_issub(c, x) for x in d)
            if isinstance(c, IClass):
                return d in c.mro
            if isinstance(c, type) and isinstance(d, type):
                return issubclass(c, d)
            return False

        @reg('getattr')
        def _getattr(o, n, *d):
            if isinstance(n, SStr):
                raise Unsupported('getattr with symbolic name')
            if d:
                try:
                    return ip.getattr(o, n)
                except PyExc as e:
                    if ip.exc_match(e.value, AttributeError):
                        return d[0]
                    raise
            return ip.getattr(o, n)

        @reg('hasattr')
        def _hasattr(o, n):
            try:
                ip.getattr(o, n)
                return True
            except PyExc as e:
                if ip.exc_match(e.value, AttributeError):
                    return False
                raise

        @reg('setattr')
        def _setattr(o, n, v):
            if isinstance(n, SStr):
                raise Unsupported('setattr with symbolic name')
            ip.setattr(o, n, v)

        @reg('delattr')
        def _delattr(o, n):
            ip.delattr(o, n)

        @reg('callable')
        def _callable(v):
            if isinstance(v, (IFunc, IBound, Native, IClass, IPartial, CoroFunc, type)):
                return True
            if isinstance(v, IObj):
                return v.cls.lookup('__call__')[0] is not MISSING
            if isinstance(v, NObj):
                return v.get(ip, '__call__') is not MISSING
            if isinstance(v, SOpaque):
                raise Unsupported('callable of %r' % v)
            return callable(v) and not isinstance(v, (Sym, Opaque))

        @reg('sorted')
        def _sorted(v, key=None, reverse=False):
            if isinstance(v, I.CharSet) and key is None and not reverse:
                return SortedChars(v)
            m = I.as_many(ip, v)
            if m is not None:
                if reverse:
                    raise Unsupported('unknown collection sorted in reverse')
                m2 = m.copy('sorted ' + m.label)
                m2.order = m if key is None else None
                return m2
            return self.sort(list(ip.items_of(v)), key, reverse)

        @reg('reversed')
        def _rev(v):
            return list(reversed(list(ip.items_of(v))))

        @reg('enumerate')
        def _enum(v, start=0):
            if isinstance(v, LazyIter):
                def g():
                    for i, x in enumerate(v.iterate(ip)):
                        yield (i + start, x)
                return LazyIter(g)
            return [(i + start, x) for i, x in enumerate(ip.items_of(v))]

        @reg('zip')
        def _zip(*vs):
            return [tuple(t) for t in zip(*[ip.items_of(v) for v in vs])]

        @reg('map')
        def _map(f, *vs):
            return [ip.call(f, list(t)) for t in zip(*[ip.items_of(v) for v in vs])]

        @reg('filter')
        def _filter(f, v):
            return [x for x in ip.items_of(v) if (ip.truth(x) if f is None else ip.truth(ip.call(f, [x])))]

        @reg('any')
        def _any(v):
            if isinstance(v, SeqGen):
                return self.quant_gen(v, 'any')
            for x in (v.iterate(ip) if isinstance(v, LazyIter) else ip.items_of(v)):
                if ip.truth(x):
                    return True
            return False

        @reg('all')
        def _all(v):
            if isinstance(v, SeqGen):
                return self.quant_gen(v, 'all')
            for x in (v.iterate(ip) if isinstance(v, LazyIter) else ip.items_of(v)):
                if not ip.truth(x):
                    return False
            return True

        @reg('sum')
        def _sum(v, start=0):
            t = start
            for x in ip.items_of(v):
                t = self.binop(ast.Add(), t, x)
            return t

        def minmax(op):
            def f(*vs, **kw):
                key = kw.get('key')
                vs = ip.items_of(vs[0]) if len(vs) == 1 else vs
                if not vs:
                    raise PyExc(ValueError('empty'))
                if key is None and all(ip.isnum(x) for x in vs) and any(isinstance(x, Sym) for x in vs) \
                        and not any(isinstance(x, float) and (x != x or abs(x) == float('inf')) for x in vs):
                    r = vs[0]
                    for x in vs[1:]:
                        a, b = ip.num_pair(r, x)
                        c = (b > a) if op == 'max' else (b < a)
                        t = z3.simplify(z3.If(c, b, a))
                        r = SReal(t) if t.sort() == z3.RealSort() else SInt(t)
                    return r
                best = vs[0]
                bk = ip.call(key, [best]) if key else best
                for x in vs[1:]:
                    xk = ip.call(key, [x]) if key else x
                    if ip.truth(ip.compare(ast.Gt() if op == 'max' else ast.Lt(), xk, bk)):
                        best, bk = x, xk
                return best
            return f
        reg('max')(minmax('max'))
        reg('min')(minmax('min'))

        @reg('abs')
        def _abs(v):
            if isinstance(v, (SInt, SReal)):
                return type(v)(z3.If(v.t >= 0, v.t, -v.t))
            return ip.host(lambda: abs(v))

        @reg('round')
        def _round(v, n=None):
            if isinstance(v, SInt) and n is None:
                return v
            if isinstance(v, SReal) and n is None:
                cx = ip.cx
                r = z3.Int(cx.name('round'))
                d = z3.ToReal(r) - v.t
                half = z3.RealVal('1/2')
                cx.axiom('round(x) is the nearest integer, the even one of two equally near',
                         z3.And(d <= half, d >= -half, z3.Implies(z3.Or(d == half, d == -half), r % 2 == 0)))
                return SInt(r)
            if isinstance(v, Sym):
                raise Unsupported('round')
            return ip.host(lambda: round(v) if n is None else round(v, n))

        @reg('repr')
        def _repr(v):
            return self.repr_(v)

        @reg('iter')
        def _iter(v):
            lst = ip.items_of(v) if not isinstance(v, LazyIter) else None
            if lst is None:
                return v
            return LazyIter(lambda: iter(list(lst)))

        @reg('next')
        def _next(v, *d):
            if isinstance(v, LazyIter):
                try:
                    return v.next(ip)
                except StopIteration:
                    if d:
                        return d[0]
                    raise PyExc(StopIteration())
            if isinstance(v, NObj):
                m = v.get(ip, '__next__')
                return ip.call(m, [])
            if hasattr(v, '__next__'):
                return ip.host(lambda: next(v))
            raise Unsupported('next')

        @reg('id')
        def _id(v):
            return id(v)

        @reg('hash')
        def _hash(v):
            return 1

        @reg('print')
        def _print(*a, **k):
            return None

        @reg('dir')
        def _dir(o):
            names = set()
            cls = o if isinstance(o, IClass) else ip.type_of(o)
            if isinstance(cls, IClass):
                for c in cls.mro:
                    if isinstance(c, IClass):
                        names |= set(c.ns)
            if isinstance(o, IObj):
                names |= set(o.attrs)
            return sorted(names)

        @reg('vars')
        def _vars(o):
            return IDict([(k, v) for k, v in o.attrs.items()])

        @reg('globals')
        def _globals():
            raise Unsupported('globals()')

        @reg('property')
        def _property(fget=None, fset=None, *a, **k):
            return Prop(fget, fset)

        @reg('classmethod')
        def _cm(f):
            return ClsM(f)

        @reg('staticmethod')
        def _sm(f):
            return StatM(f)

        @reg('ord')
        def _ord(v):
            if isinstance(v, Sym):
                return SInt(z3.StrToCode(v.t))
            return ip.host(lambda: ord(v))

        B['super'] = SUPER
        SUPER.fn = lambda ip2, a, k: ISuper(a[0], a[1])
        B['True'], B['False'], B['None'] = True, False, None
        B['NotImplemented'] = NotImplemented
        NATIVE_TYPES['basestring'] = lambda ip2, v: ip2.isinstance_(v, (str, bytes))

    def quant_gen(self, g, which):
        """any/all of a generator over an unknown sequence: skolemised fork."""
        ip, cx = self.ip, self.ip.cx

        def body(x):
            cenv = I.Env(g.env, None, g.env.glob, g.env.func)
            ip.bind_comp(g.node.generators[0].target, x, cenv)
            if not all(ip.truth(ip.ev(c, cenv)) for c in g.node.generators[0].ifs):
                return None
            return ip.truth(ip.ev(g.node.elt, cenv))
        want = which == 'any'
        if cx.choose(2, None) == 0:
            i = z3.Int(cx.name('qidx'))
            cx.assume(z3.And(i >= 0, i < g.seq.length))
            r = body(g.seq.at(cx, i))
            if r is None or r is not want:
                raise PathEnd()
            return want
        # no element decides: recorded lazily on instantiation
        old = g.seq._elem
        seen = list(g.seq._cache.values())

        def check(x):
            r = body(x)
            if r is want:
                raise PathEnd()
        for _, x in seen:
            check(x)

        def elem(idx):
            x = old(idx)
            check(x)
            return x
        g.seq._elem = elem
        return not want

    # ------------------------------------------------------------ modules
    def import_module(self, name):
        if name in self.mods:
            return self.mods[name]
        if name == 'katcp' or name.startswith('katcp.'):
            if name == 'katcp':
                m = IModule('katcp', {'__name__': 'katcp', '__version__': '0.0+any'})
                self.mods[name] = m
                return m
            m = self.ip.load(name)
            self.mods[name] = m
            return m
        f = getattr(self, 'mod_' + name.replace('.', '_'), None)
        if f is not None:
            m = IModule(name, f())
        elif name in PASS_MODULES:
            m = importlib.import_module(name)
        else:
            m = Opaque(name)
        self.mods[name] = m
        return m

    def import_from(self, mod, attr):
        if mod == 'katcp.object_proxies':      # dynamic code (exec); not modelled
            return Opaque(mod + '.' + attr)
        if mod == 'katcp' or mod.startswith('katcp.'):
            if mod == 'katcp':
                # names re-exported by the package, or submodules
                import os
                p = os.path.join(self.ip.repo, 'katcp', attr + '.py')
                if os.path.exists(p):
                    return self.ip.load('katcp.' + attr)
                init = ast.parse(open(os.path.join(self.ip.repo, 'katcp', '__init__.py')).read())
                for n in init.body:
                    if isinstance(n, ast.ImportFrom):
                        for al in n.names:
                            if (al.asname or al.name) == attr:
                                return self.import_from('katcp.' + n.module, al.name)
                raise Unsupported('katcp.' + attr)
            m = self.ip.load(mod)
            if attr not in m.ns:
                raise Unsupported('%s.%s' % (mod, attr))
            return m.ns[attr]
        m = self.import_module(mod)
        if isinstance(m, IModule):
            if attr in m.ns:
                return m.ns[attr]
            sub = self.submodule(m, attr)
            if sub is not MISSING:
                return sub
            raise PyExc(ImportError(attr))
        if isinstance(m, Opaque):
            return self.opaque_attr(m, attr)
        return getattr(m, attr)

    def submodule(self, m, name):
        full = m.name + '.' + name
        if m.name == 'katcp':
            try:
                return self.import_from('katcp', name)
            except Unsupported:
                return MISSING
        if full in self.mods:
            return self.mods[full]
        if hasattr(self, 'mod_' + full.replace('.', '_')):
            return self.import_module(full)
        return Opaque(full)

    def N(self, f, name='native'):
        return Native(lambda ip, a, k: f(*a, **k), name)

    def mod_future(self):
        return {'utils': self.import_module('future.utils'),
                'standard_library': self.import_from('future.standard_library_', 'x') if False else
                self._std()}

    def _std(self):
        return IModule('future.standard_library', {'install_aliases': self.N(lambda: None)})

    def mod_future_utils(self):
        return {'PY2': False, 'PY3': True,
                'with_metaclass': self.N(lambda meta, *b: MetaMarker(meta, b or (object,))),
                'native_str_to_bytes': self.N(lambda s, e='utf-8': STR.encode(self.ip, s, e)
                                              if not isinstance(s, (bytes, SBytes)) else s),
                'bytes_to_native_str': self.N(lambda s, e='utf-8': STR.decode(self.ip, s, e)),
                'native': self.N(lambda x: x)}

    def mod___future__(self):
        return {'absolute_import': 1, 'division': 1, 'print_function': 1, 'unicode_literals': 1}

    def mod_builtins(self):
        d = {'bytes': bytes, 'str': str, 'object': object, 'int': int, 'dict': dict, 'list': list,
             'range': range}
        for n in ('next', 'zip', 'map', 'filter', 'super'):
            d[n] = self.builtin(n)
        return d

    def mod_past_builtins(self):
        return {'basestring': Native(None, 'basestring')}

    def mod_past(self):
        return {'builtins': self.import_module('past.builtins')}

    def mod_logging(self):
        return {'getLogger': self.N(lambda *a: NLogger()), 'DEBUG': 10, 'INFO': 20, 'WARN': 30, 'WARNING': 30,
                'ERROR': 40, 'FATAL': 50, 'CRITICAL': 50, 'NOTSET': 0, 'NullHandler': self.N(lambda: NObj()),
                'addLevelName': self.N(lambda *a: None), 'Handler': Opaque('logging.Handler'),
                'getLevelName': self.N(lambda l: 'LEVEL'), 'basicConfig': self.N(lambda *a, **k: None),
                'Logger': Opaque('logging.Logger')}

    def mod_abc(self):
        return {'ABCMeta': Opaque('ABCMeta'), 'abstractproperty': self.B['property'],
                'abstractmethod': self.N(lambda f: f)}

    def mod_decimal(self):
        return {'Decimal': self.N(lambda v: NDecimal(v) if isinstance(v, Sym) else
                                  self.ip.host(lambda: __import__('decimal').Decimal(v)))}

    def mod_warnings(self):
        return {'warn': self.N(lambda *a, **k: None), 'filterwarnings': self.N(lambda *a, **k: None)}

    def mod_time(self):
        def now():
            cx = self.ip.cx
            t = cx.real('time')
            if self.clock is not None:
                cx.add(t.t >= self.clock)
            else:
                cx.add(t.t >= 0)
            self.clock = t.t
            cx.ghost.setdefault('time.time', []).append(t)
            return t
        return {'time': self.N(now), 'sleep': self.N(lambda *a: None)}

    def mod_sys(self):
        def exc_info():
            if not self.ip.exc_stack:
                return (None, None, None)
            v = self.ip.exc_stack[-1]
            return (self.ip.type_of(v), v, None)
        return {'exc_info': self.N(exc_info), 'version_info': (3, 9, 18), 'maxsize': 2**63 - 1,
                'exc_clear': self.N(lambda: None), 'stderr': Opaque('stderr'), 'stdout': Opaque('stdout'),
                'getrefcount': Opaque('getrefcount'), 'modules': Opaque('sys.modules'), 'byteorder': 'little'}

    def mod_traceback(self):
        def fmt(*a, **k):
            return [SStr(z3.String(self.ip.cx.name('traceback')))]
        return {'format_exception': self.N(fmt), 'format_exc': self.N(lambda *a: fmt()[0]),
                'print_exc': self.N(lambda *a: None), 'format_stack': self.N(fmt)}

    def mod_threading(self):
        return {'Lock': self.N(lambda: NLock()), 'RLock': self.N(lambda: NLock()),
                'Event': self.N(lambda: NEvent()), 'Thread': Opaque('threading.Thread'),
                'currentThread': self.N(lambda: Opaque('thread')), 'current_thread': self.N(lambda: Opaque('thread'))}

    def mod__thread(self):
        return {'get_ident': self.N(lambda: self.ip.cx.ghost.get('thread_ident', 1)),
                'get_thread_ident': self.N(lambda: self.ip.cx.ghost.get('thread_ident', 1))}

    def mod_queue(self):
        return {'Queue': Opaque('queue.Queue'), 'Empty': Opaque('queue.Empty'), 'Full': Opaque('queue.Full')}

    def mod_numbers(self):
        def integral(ip, v):
            return isinstance(v, (bool, int, SInt, SBool))

        def real(ip, v):
            return isinstance(v, (bool, int, float, SInt, SBool, SReal))
        return {'Integral': ABCMark('Integral', integral), 'Real': ABCMark('Real', real),
                'Number': ABCMark('Number', real)}

    def mod_functools(self):
        ip = self.ip

        def partial(f, *a, **k):
            return IPartial(f, list(a), k)

        def wraps(w, *rest, **kk):
            def deco(f):
                src = w
                while isinstance(src, (IBound, CoroFunc, StatM, ClsM)):
                    src = src.func if isinstance(src, (IBound, CoroFunc)) else src.f
                tgt = f
                while isinstance(tgt, CoroFunc):
                    tgt = tgt.func
                if isinstance(tgt, IFunc) and isinstance(src, IFunc):
                    for k, v in src.attrs.items():
                        tgt.attrs[k] = v
                    tgt.attrs['__wrapped__'] = w
                return f
            return self.N(deco, 'wraps')

        def update_wrapper(f, w, *a, **k):
            return ip.call(wraps(w), [f])

        def reduce_(f, seq, *init):
            it = list(ip.items_of(seq))
            acc = init[0] if init else it.pop(0)
            for x in it:
                acc = ip.call(f, [acc, x])
            return acc
        return {'partial': self.N(partial, 'partial'), 'wraps': self.N(wraps, 'wraps'),
                'update_wrapper': self.N(update_wrapper, 'uw'), 'reduce': self.N(reduce_, 'reduce')}

    def mod_copy(self):
        def copy_(v):
            return self.shallow(v)

        def deep(v, memo=None):
            memo = {} if memo is None else memo
            if id(v) in memo:
                return memo[id(v)]
            if isinstance(v, list):
                out = memo[id(v)] = []
                out.extend(deep(x, memo) for x in v)
                return out
            if isinstance(v, tuple):
                return tuple(deep(x, memo) for x in v)
            if isinstance(v, IDict):
                out = memo[id(v)] = IDict([(k, deep(x, memo)) for k, x in v.items], v.default_factory)
                out.rest = v.rest
                return out
            if isinstance(v, ISet):
                return ISet([deep(x, memo) for x in v.elems], v.is_frozenset)
            if isinstance(v, IObj) and isinstance(v.payload, IDict):
                out = memo[id(v)] = IObj(v.cls)
                out.payload = deep(v.payload, memo)
                out.attrs = dict((k, out if x is v else deep(x, memo)) for k, x in v.attrs.items())
                return out
            if isinstance(v, (IObj, NObj)):
                raise Unsupported('deepcopy of %r' % v)
            return v
        return {'copy': self.N(copy_), 'deepcopy': self.N(deep)}

    def shallow(self, v):
        if isinstance(v, list):
            return list(v)
        if isinstance(v, IDict):
            d = IDict([tuple(i) for i in v.items], v.default_factory)
            d.rest, d.excluded, d.many, d.size = v.rest, list(v.excluded), v.many, v.size
            return d
        if isinstance(v, ISet):
            s = ISet(v.elems, v.is_frozenset)
            s.rest, s.excluded, s.many, s.size = v.rest, list(v.excluded), v.many, v.size
            return s
        if isinstance(v, IObj):
            f, _ = v.cls.lookup('__copy__')
            if f is not MISSING:
                return self.ip.call(f, [v])
            o = IObj(v.cls)
            o.attrs = dict(v.attrs)
            o.payload = self.shallow(v.payload) if v.payload is not None else None
            return o
        return v

    def mod_collections(self):
        ip = self.ip

        def namedtuple(name, fields, *a, **k):
            if isinstance(fields, str):
                fields = fields.replace(',', ' ').split()
            fields = [str(f) for f in ip.items_of(fields)]

            def new(ip2, args, kw):
                cls, args = args[0], list(args[1:])
                if any(isinstance(x, StarSeq) for x in args):
                    raise Unsupported('namedtuple(*unknown)')
                if len(args) > len(fields):
                    raise PyExc(TypeError('takes %d args' % len(fields)))
                vals = args[:]
                for f in fields[len(args):]:
                    if f not in kw:
                        raise PyExc(TypeError('missing argument ' + f))
                    vals.append(kw[f])
                o = IObj(cls)
                o.payload = tuple(vals)
                return o
            ns = {'_fields': tuple(fields), '__new__': Native(new, 'new'),
                  '__doc__': '%s(%s)' % (name, ', '.join(fields))}
            for i, f in enumerate(fields):
                ns[f] = Prop(Native(lambda ip2, a, k, i=i: a[0].payload[i], f))

            def repl(ip2, a, k):
                o = IObj(a[0].cls)
                o.payload = tuple(k.get(f, a[0].payload[i]) for i, f in enumerate(fields))
                return o
            ns['_replace'] = Native(repl, '_replace')
            ns['_asdict'] = Native(lambda ip2, a, k: IDict(list(zip(fields, a[0].payload))), '_asdict')
            ns['_make'] = ClsM(Native(lambda ip2, a, k: new(ip2, [a[0]] + list(ip2.items_of(a[1])), {}), '_make'))
            c = IClass(name, [tuple], ns)
            return c
        self.defaultdict_marker = defaultdict = getattr(self, 'defaultdict_marker', None) or type('defaultdict', (dict,), {})
        return {'namedtuple': self.N(namedtuple), 'defaultdict': defaultdict, 'OrderedDict': dict,
                'deque': self.N(lambda v=(), maxlen=None: list(ip.items_of(v))), 'Counter': Opaque('Counter'),
                'Mapping': ABCMark('Mapping', lambda ip2, v: isinstance(v, IDict) or (
                    isinstance(v, IObj) and isinstance(v.payload, IDict))),
                'Sequence': ABCMark('Sequence', lambda ip2, v: isinstance(
                    v, (list, tuple, str, bytes, SStr, SBytes, SSeq, SList))),
                'Iterable': ABCMark('Iterable', lambda ip2, v: isinstance(
                    v, (list, tuple, str, bytes, SStr, SBytes, SSeq, SList, IDict, ISet, LazyIter))),
                'Callable': ABCMark('Callable', lambda ip2, v: ip2.truth(ip2.call(self.B['callable'], [v])))}

    def mod_collections_abc(self):
        return self.mod_collections()

    def mod_random(self):
        def uniform(a, b):
            cx = self.ip.cx
            t = cx.real('random')
            x, y = self.ip.num_pair(a, b)
            # random.uniform(a, b) returns a value between its arguments
            cx.axiom('min(a,b) <= random.uniform(a,b) <= max(a,b)',
                     z3.If(x <= y, z3.And(t.t >= x, t.t <= y), z3.And(t.t >= y, t.t <= x)))
            return t

        def rnd():
            cx = self.ip.cx
            t = cx.real('random')
            cx.axiom('0 <= random.random() < 1', z3.And(t.t >= 0, t.t < 1))
            return t
        return {'uniform': self.N(uniform), 'random': self.N(rnd)}

    def mod_concurrent_futures(self):
        return {'Future': Native(lambda ip, a, k: IFuture(), 'Future'),
                'TimeoutError': Opaque_exc('concurrent.futures.TimeoutError')}

    def mod_tornado(self):
        return {'gen': self.import_module('tornado.gen'), 'ioloop': self.import_module('tornado.ioloop'),
                'concurrent': self.import_module('tornado.concurrent'), 'version_info': (4, 5, 3, 0),
                'version': '4.5.3', 'iostream': self.import_module('tornado.iostream')}

    def mod_tornado_concurrent(self):
        ip = self.ip

        def chain(a, b):
            def cp(ip2, args, k):
                if b.state == 'pending':
                    b._finish(ip, a.state, a.value)
            a.m_add_done_callback(ip, Native(cp, 'chain'))
        return {'Future': Native(lambda ip, a, k: IFuture(), 'Future'),
                'chain_future': self.N(chain), 'is_future': self.N(lambda f: isinstance(f, IFuture)),
                'TracebackFuture': Native(lambda ip, a, k: IFuture(), 'Future')}

    RETURN = IClass('Return', [Exception], {}, None, 'tornado.gen')
    TIMEOUT = IClass('TimeoutError', [Exception], {}, None, 'tornado.gen')

    def mod_tornado_gen(self):
        ip = self.ip

        def ret(self_, value=None):
            self_.attrs['value'] = value
            self_.payload = (value,)
        Lib.RETURN.ns['__init__'] = self.N(ret, 'Return.__init__')

        def coroutine(f, *a, **k):
            return CoroFunc(f)

        def maybe_future(x):
            if isinstance(x, IFuture):
                return x
            f = IFuture()
            f.state, f.value = 'result', x
            return f

        def with_timeout(timeout, fut, *a, **k):
            h = ip.cx.ghost.get('with_timeout')
            if h is not None:
                return h(ip, timeout, fut)
            if ip.cx.ghost.get('coroutines'):
                return timed(timeout, maybe_future(fut))
            if isinstance(fut, IFuture) and fut.state != 'pending':
                return fut
            raise Unsupported('with_timeout')

        def timed(timeout, fut):
            res = IFuture()

            def copy(f):
                if res.state != 'pending':
                    return
                res._finish(ip, f.state, f.value)
            fut.m_add_done_callback(ip, self.N(copy))

            def expire():
                res.m_set_exception(ip, ip.call(Lib.TIMEOUT, ['Timeout']))
            loop = self.current_loop()
            h = loop.m_add_timeout(ip, timeout, self.N(expire))
            fut.m_add_done_callback(ip, self.N(lambda f: loop.m_remove_timeout(ip, h)))
            return res
        moment = self.MOMENT = IFuture()
        moment.state = 'result'

        def sleep(d):
            if not ip.cx.ghost.get('coroutines'):
                return maybe_future(None)
            f = IFuture()
            self.current_loop().m_call_later(ip, d, Native(lambda ip2, a, k: f.m_set_result(ip2, None), 'sleep'))
            return f
        return {'Return': Lib.RETURN, 'coroutine': self.N(coroutine, 'coroutine'),
                'maybe_future': self.N(maybe_future), 'with_timeout': self.N(with_timeout),
                'TimeoutError': Lib.TIMEOUT, 'moment': moment, 'WaitIterator': Native(lambda ip, a, k: NWaitIterator(ip, a, k), 'WaitIterator'),
                'sleep': self.N(sleep), 'BadYieldError': BADYIELD,
                'chain_future': self.mod_tornado_concurrent()['chain_future'],
                'Future': Native(lambda ip, a, k: IFuture(), 'Future'),
                'is_future': self.N(lambda f: isinstance(f, IFuture)),
                'multi': self.N(lambda fs: self.multi_future(fs) if ip.cx.ghost.get('coroutines') else self.await_(fs)),
                'multi_future': self.N(lambda fs: self.multi_future(fs)),
                'engine': self.N(coroutine)}

    def multi_future(self, fs):
        f = IFuture()
        ip = self.ip
        if ip.cx.ghost.get('coroutines'):
            d = isinstance(fs, IDict)
            kids = [v for _, v in fs.items] if d else list(ip.items_of(fs))
            for k in kids:
                if not isinstance(k, IFuture):
                    raise PyExc(self.bad_yield(k))
            left = set(id(k) for k in kids)

            def fin():
                for k in kids:
                    if k.state == 'exc':
                        return f.m_set_exception(ip, k.value)
                vs = [k.value for k in kids]
                f.m_set_result(ip, IDict([(k, v) for (k, _), v in zip(fs.items, vs)]) if d else vs)

            def one(k):
                left.discard(id(k))
                if not left and f.state == 'pending':
                    fin()
            if not kids:
                fin()
            for k in dict((id(k), k) for k in kids).values():
                k.m_add_done_callback(ip, self.N(one))
            return f
        f.state, f.value = 'result', self.await_(fs)
        return f

    def mod_closed(self):
        return self.import_module('tornado.iostream').ns['StreamClosedError']

    def mod_tornado_iostream(self):
        return {'StreamClosedError': IClass('StreamClosedError', [IOError], {}, None, 'tornado.iostream'),
                'IOStream': Opaque('tornado.iostream.IOStream')}

    def mod_tornado_ioloop(self):
        cls = IClass('IOLoop', [object], {}, None, 'tornado.ioloop')

        def current(*a, **k):
            return self.current_loop()
        cls.ns['current'] = StatM(self.N(current))
        cls.ns['instance'] = StatM(self.N(current))
        return {'IOLoop': cls, 'TimeoutError': Lib.TIMEOUT, 'PeriodicCallback': Opaque('PeriodicCallback')}

    def mod_tornado_util(self):
        c = IClass('ObjectDict', [dict], {})

        def ga(ip, a, k):
            o, name = a
            it = o.payload.find(ip, name)
            if it is None:
                raise PyExc(AttributeError(name))
            return it[1]

        def sa(ip, a, k):
            a[0].payload.set(ip, a[1], a[2])
        c.ns['__getattr__'] = Native(ga, 'ga')
        c.ns['__setattr__'] = Native(sa, 'sa')
        return {'ObjectDict': c}

    def is_return(self, v):
        return isinstance(v, IObj) and v.cls is Lib.RETURN

    def return_value(self, v):
        return v.attrs.get('value')

    def await_(self, v):
        ip = self.ip
        if ip.cx.ghost.get('coroutines'):
            return self.await_sched(v)
        if isinstance(v, IFuture):
            if v.state == 'pending':
                h = ip.cx.ghost.get('await')
                if h is not None:
                    r = h(ip, v)
                    if v.state == 'pending':
                        return r
                if v.state == 'pending':
                    raise Unsupported('await of a pending future')
            if v.state == 'exc':
                raise PyExc(v.value)
            return v.value
        if isinstance(v, (list, tuple)):
            return [self.await_(x) for x in v]
        if isinstance(v, IDict):
            return IDict([(k, self.await_(x)) for k, x in v.items])
        h = ip.cx.ghost.get('await')
        if h is not None:
            return h(ip, v)
        raise Unsupported('await %r' % (v,))

    def await_sched(self, v):
        """yield in a coroutine that can suspend."""
        ip = self.ip
        if isinstance(v, (list, tuple, IDict)):
            v = self.multi_future(v)
        if not isinstance(v, IFuture):
            raise PyExc(self.bad_yield(v))
        co = I.Coro.current
        if co is None:
            raise Unsupported('await outside a coroutine')
        if v.state == 'pending' or v is self.MOMENT:
            loop = self.current_loop()
            loop.m_add_future(ip, v, Native(lambda ip2, a, k: co.resume(), 'resume'))
            co.suspend()
        if v.state == 'exc':
            raise PyExc(v.value)
        return v.value

    def bad_yield(self, v):
        return self.ip.call(BADYIELD, ['yielded unknown object %s' % self.ip.show(v)])

    def current_loop(self):
        l = self.ip.cx.ghost.get('ioloop')
        if l is None:
            l = self.ip.cx.ghost['ioloop'] = NIOLoop()
        return l

    # ------------------------------------------------------------ calls to library objects
    def call_opaque(self, f, args, kw):
        h = self.ip.cx.ghost.get('opaque:' + f.path)
        if h is not None:
            return h(self.ip, args, kw)
        raise Unsupported('call of library %s' % f.path)

    def opaque_attr(self, o, name):
        return Opaque(o.path + '.' + name)

    def call_host(self, f, args, kw):
        ip = self.ip
        hs = ip.cx.ghost.get('host_stubs') if ip.cx is not None else None
        if hs:
            for g, stub in hs.items():
                if f is g:
                    return stub(ip, args, kw)
        if f in CALLS:
            return CALLS[f](self, args, kw)
        if isinstance(f, type):
            if issubclass(f, BaseException):
                try:
                    if all(deep_concrete(a) for a in args):
                        e = f(*args)
                    else:
                        e = f(*['<sym>' for _ in args]) if not issubclass(f, UnicodeError) else f('utf-8', b'', 0, 1, 's')
                        e.symargs = tuple(args)
                except TypeError as x:
                    raise PyExc(x)
                return e
            if f is getattr(self, 'defaultdict_marker', None):
                d = IDict((), args[0] if args else None)
                if len(args) > 1:
                    self.dict_update(d, args[1:], kw)
                return d
        if callable(f):
            if isinstance(getattr(f, '__self__', None), re.Pattern):
                return self.re_call(f.__self__, f.__name__, args, kw)
            if f in (re.match, re.search, re.sub, re.split, re.fullmatch, re.findall) and not all(
                    deep_concrete(a) for a in args):
                if isinstance(args[0], (str, bytes)):
                    return self.re_call(re.compile(args[0]), f.__name__, args[1:], kw)
                raise Unsupported('re with symbolic pattern')
            if f is re.compile and args and isinstance(args[0], Sym):
                if ip.cx.choose(2, None) == 0:
                    return NPattern(args[0])
                raise PyExc(re.error('model: bad pattern'))
            if f is itertools.count:
                return LazyIter(lambda: itertools.count(*args))
            if f is itertools.zip_longest:
                return [tuple(x) for x in itertools.zip_longest(*[ip.items_of(a) for a in args], **kw)]
            if f is itertools.chain:
                return [x for a in args for x in ip.items_of(a)]
            if getattr(f, '__name__', '') in ('getfullargspec', 'getargspec'):
                return self.argspec(args[0])
            if getattr(f, '__module__', '') == 'inspect':
                raise Unsupported('inspect.' + f.__name__)
            if all(deep_concrete(a) for a in args) and all(deep_concrete(a) for a in kw.values()):
                r = ip.host(lambda: f(*args, **kw))
                return self.from_host(r)
            if f in (operator.and_, operator.or_):
                return self.binop(ast.BitAnd() if f is operator.and_ else ast.BitOr(), *args)
        raise Unsupported('call of host %r' % (f,))

    def argspec(self, f):
        drop = 0
        while isinstance(f, (IBound, CoroFunc)):
            f = f.func
        # signature() follows __wrapped__; getfullargspec (Python 3) does not
        if not isinstance(f, IFunc):
            raise Unsupported('argspec of %r' % f)
        a = f.node.args
        o = NObj()
        o.clsname = 'ArgSpec'
        o.a_args = [x.arg for x in list(a.posonlyargs) + list(a.args)]
        o.a_varargs = a.vararg.arg if a.vararg else None
        o.a_keywords = o.a_varkw = a.kwarg.arg if a.kwarg else None
        o.a_defaults = tuple(f.defaults) or None
        o.m___getitem__ = lambda ip, i: [o.a_args, o.a_varargs, o.a_varkw, o.a_defaults][i]
        return o

    def from_host(self, r):
        if isinstance(r, dict):
            return IDict([(k, self.from_host(v)) for k, v in r.items()])
        if isinstance(r, (set, frozenset)):
            return ISet(sorted(r, key=repr), isinstance(r, frozenset))
        if isinstance(r, list):
            return [self.from_host(x) for x in r]
        return r

    def re_call(self, pat, meth, args, kw):
        ip = self.ip
        if meth in ('match', 'search', 'fullmatch'):
            s = args[0]
            if isinstance(s, Sym):
                return STR.re_match(ip, pat, s, meth)
            return ip.host(lambda: getattr(pat, meth)(*args, **kw))
        if meth == 'sub':
            repl, s = args[0], args[1]
            if isinstance(s, Sym):
                h = ip.cx.ghost.get('re_sub')
                if h is not None:
                    return h(ip, pat, repl, s)
                raise Unsupported('re.sub on a symbolic string')
            if isinstance(repl, (str, bytes)):
                return ip.host(lambda: pat.sub(repl, s))

            def cb(m):
                r = ip.call(repl, [m])
                if isinstance(r, Sym):
                    raise Unsupported('symbolic re.sub replacement')
                return r
            try:
                return pat.sub(cb, s)
            except (PyExc, PathEnd, Unsupported):
                raise
            except Exception as e:
                raise PyExc(e)
        if meth == 'split':
            s = args[0]
            if isinstance(s, Sym):
                h = ip.cx.ghost.get('re_split')
                if h is not None:
                    return h(ip, pat, s)
                raise Unsupported('re.split on a symbolic string')
            return ip.host(lambda: pat.split(s))
        if all(deep_concrete(a) for a in args):
            return self.from_host(ip.host(lambda: getattr(pat, meth)(*args, **kw)))
        raise Unsupported('re.' + meth)

    # ------------------------------------------------------------ attributes of values
    def payload_attr(self, o, name):
        p = o.payload
        if isinstance(p, IDict):
            m = getattr(self, 'dict_' + name, None)
            if m is not None:
                return Native(lambda ip, a, k: m(p, *a, **k), 'dict.' + name)
        if isinstance(p, (tuple, list)) and not self.ip.isinstance_(o, BaseException):
            if name in ('index', 'count', 'append', 'extend', 'pop'):
                return self.value_attr(p, name)
        if self.ip.isinstance_(o, BaseException):
            if name == 'args':
                return tuple(p)
            if name == 'message':
                return MISSING
        return MISSING

    def object_attr(self, o, name):
        if name == '__init__':
            return Native(lambda ip, a, k: None, 'object.__init__')
        if name == '__str__':
            return Native(lambda ip, a, k: self.str_(o), 'str')
        if name == '__hash__':
            return Native(lambda ip, a, k: 1, 'hash')
        return MISSING

    def class_attr(self, c, name):
        hb = c.host_base()
        if name == '__init__':
            def init(ip, a, k):
                if hb is not None and issubclass(hb, BaseException):
                    a[0].payload = tuple(a[1:])
                if hb is dict:
                    if a[0].payload is None:
                        a[0].payload = IDict()
                    self.dict_update(a[0].payload, a[1:], k)
            return Native(init, 'init')
        if name == '__doc__':
            return None
        if name == 'register':
            return Native(lambda ip, a, k: None, 'register')
        if name == '__module__':
            return c.module
        if name == '__qualname__':
            return c.name
        if name == 'mro':
            return Native(lambda ip, a, k: list(c.mro), 'mro')
        if hb is not None and hasattr(hb, name):
            def um(ip, a, k):
                return ip.call(ip.getattr(ISuper(c, a[0]), name), a[1:], k)
            return Native(um, name)
        if name in ('__setattr__', '__getattribute__', '__str__', '__repr__', '__eq__', '__ne__'):
            return self.super_host(ISuper(c, None), name, [object])
        return MISSING

    def super_host(self, sup, name, rest):
        o = sup.obj
        if name == '__init__':
            def init(ip, a, k):
                if isinstance(o, IObj):
                    for c in rest:
                        if isinstance(c, type) and issubclass(c, BaseException):
                            o.payload = tuple(a)
                            return
                        if c is dict:
                            if o.payload is None:
                                o.payload = IDict()
                            self.dict_update(o.payload, a, k)
                            return
                        if isinstance(c, type) and getattr(c, '__name__', '') == 'defaultdict':
                            o.payload = IDict((), a[0] if a else None)
                            return
            return Native(init, 'object.__init__')
        if name == '__setattr__':
            def sa(ip, a, k):
                if o is None:
                    a[0].attrs[a[1]] = a[2]
                else:
                    o.attrs[a[0]] = a[1]
            return Native(sa, 'setattr')
        if name == '__getattribute__':
            return Native(lambda ip, a, k: ip.getattr(*(([o] if o is not None else []) + list(a))), name)
        if name == '__new__':
            return Native(lambda ip, a, k: IObj(a[0]), 'new')
        if name == '__str__' or name == '__repr__':
            return Native(lambda ip, a, k: SStr(z3.String(ip.cx.name('objstr'))), name)
        if isinstance(o, IObj) and o.payload is not None:
            r = self.payload_attr(o, name)
            if r is not MISSING:
                return r
            if isinstance(o.payload, IDict):
                if name == '__getitem__':
                    return Native(lambda ip, a, k: self.getitem(o.payload, a[0]), name)
                if name == '__setitem__':
                    return Native(lambda ip, a, k: self.setitem(o.payload, a[0], a[1]), name)
                if name == '__delitem__':
                    return Native(lambda ip, a, k: self.delitem(o.payload, a[0]), name)
                if name == '__contains__':
                    return Native(lambda ip, a, k: self.contains(o.payload, a[0]), name)
        for c in rest:
            if isinstance(c, Opaque):
                h = self.ip.cx.ghost.get('super:' + c.path + '.' + name)
                if h is not None:
                    return Native(lambda ip, a, k: h(ip, [o] + list(a), k), name)
        return MISSING

    def value_attr(self, o, name):
        ip = self.ip
        if isinstance(o, (SBytes, SStr, bytes, str)):
            m = getattr(self, 's_' + name, None)
            if m is not None:
                return Native(lambda ip2, a, k: m(o, *a, **k), 'str.' + name)
            if isinstance(o, (bytes, str)) and hasattr(o, name):
                f = getattr(o, name)

                def call(ip2, a, k):
                    if all(deep_concrete(x) for x in a):
                        return self.from_host(ip.host(lambda: f(*a, **k)))
                    raise Unsupported('%s.%s with symbolic argument' % (type(o).__name__, name))
                return Native(call, 'str.' + name)
            if isinstance(o, Sym) and hasattr(bytes if isinstance(o, SBytes) else str, name):
                raise Unsupported('symbolic %s.%s' % (o.pyname, name))
            return MISSING
        if isinstance(o, IDict):
            m = getattr(self, 'dict_' + name, None)
            if m is None:
                if hasattr(dict, name):
                    raise Unsupported('dict.' + name)
                return MISSING
            return Native(lambda ip2, a, k: m(o, *a, **k), 'dict.' + name)
        if isinstance(o, ISet):
            m = getattr(self, 'set_' + name, None)
            if m is None:
                if hasattr(set, name):
                    raise Unsupported('set.' + name)
                return MISSING
            return Native(lambda ip2, a, k: m(o, *a, **k), 'set.' + name)
        if isinstance(o, (list, tuple)):
            m = getattr(self, 'list_' + name, None)
            if m is not None:
                return Native(lambda ip2, a, k: m(o, *a, **k), 'list.' + name)
            if hasattr(o, name):
                raise Unsupported('list.' + name)
            return MISSING
        if isinstance(o, (SList, SSeq)):
            m = getattr(self, 'slist_' + name, None)
            if m is not None:
                return Native(lambda ip2, a, k: m(o, *a, **k), 'slist.' + name)
            raise Unsupported('unknown-length sequence .' + name)
        if isinstance(o, (SInt, SReal, SBool)):
            if name == 'is_integer' and isinstance(o, SReal):
                return self.N(lambda: SBool(z3.IsInt(o.t)))
            if hasattr(int if isinstance(o, SInt) else float, name):
                raise Unsupported('number.' + name)
            return MISSING
        if isinstance(o, LazyIter):
            if name in ('__next__', 'next'):
                return self.N(lambda: self.ip.call(self.B['next'], [o]))
            return MISSING
        if isinstance(o, re.Pattern):
            if name in ('match', 'search', 'sub', 'split', 'fullmatch', 'findall', 'finditer'):
                return Native(lambda ip2, a, k: self.re_call(o, name, a, k), 're.' + name)
            return getattr(o, name)
        if isinstance(o, ABCMark):
            if name == 'register':
                return self.N(lambda *a: None)
            return MISSING
        if isinstance(o, BaseException):
            if name == 'args' and hasattr(o, 'symargs'):
                return o.symargs
            return getattr(o, name, MISSING)
        if o is dict or o is list or o is tuple or o is object or isinstance(o, type):
            if o is dict and name == 'fromkeys':
                return self.N(lambda ks, v=None: IDict([(k, v) for k in ip.items_of(ks)]))
            if o is object and name in ('__setattr__', '__getattribute__'):
                return self.super_host(ISuper(None, None), name, [object])
            if o is dict and name == '__init__':
                def dinit(self_, *a, **k):
                    if self_.payload is None:
                        self_.payload = IDict()
                    self.dict_update(self_.payload, a, k)
                return self.N(dinit)
            if name in ('__name__', '__doc__', '__module__'):
                return getattr(o, name)
            f = getattr(o, name, MISSING)
            if f is MISSING:
                return MISSING

            def um(ip2, a, k):
                if o is dict and isinstance(a[0], IObj) and isinstance(a[0].payload, IDict):
                    m = self.payload_attr(a[0], name)     # (of the dict, whatever the object's own attributes are)
                    if m is not MISSING:
                        return ip2.call(m, a[1:], k)
                return ip2.call(ip2.getattr(a[0], name), a[1:], k)
            if callable(f) and o in (str, bytes, list, dict, int, float):
                if name in ('fromhex', 'maketrans', 'fromkeys'):
                    return f
                return Native(um, name)
            return f
        if o is None or isinstance(o, (int, float)):
            f = getattr(o, name, MISSING)
            return f
        if isinstance(o, (types.ModuleType, re.Match, struct.Struct)) or not isinstance(
                o, (Sym, SOpaque)):
            return getattr(o, name, MISSING)
        return MISSING

    # ------------------------------------------------------------ str / bytes methods
    def _cls(self, s):
        return SBytes if isinstance(s, (bytes, SBytes)) else SStr

    def _conc(self, *a):
        return not any(isinstance(x, Sym) for x in a)

    def s_encode(self, s, enc='utf-8', errors='strict'):
        if isinstance(s, (bytes, SBytes)):
            raise PyExc(AttributeError("'bytes' object has no attribute 'encode'"))
        return STR.encode(self.ip, s, enc, errors)

    def s_decode(self, s, enc='utf-8', errors='strict'):
        if isinstance(s, (str, SStr)):
            raise PyExc(AttributeError("'str' object has no attribute 'decode'"))
        return STR.decode(self.ip, s, enc, errors)

    def s_join(self, s, seq):
        ip = self.ip
        if isinstance(seq, SortedChars):
            if isinstance(s, Sym) or s:
                raise Unsupported('join of characters')
            cs, cx = seq.cs, ip.cx
            j = z3.String(cx.name('sorted_chars'))
            sub = [re_range(0, 127), z3.Union(re_range(0, 9), re_range(11, 255)),
                   z3.Union(re_range(0, 9), re_range(11, 127)), re_range(0, 255)]
            cx.axiom('join of a sorted character set: empty iff the set is, same character classes',
                     z3.And([(j == zs('')) == (cs.t == zs(''))] +
                            [z3.InRe(j, z3.Star(r)) == z3.InRe(cs.t, z3.Star(r)) for r in sub]))
            for r in sub:
                if STR.in_star(cx, cs.t, r):
                    cx.add(z3.InRe(j, z3.Star(r)))
            cx.ghost.setdefault('charset_links', {})[j.get_id()] = (j, cs.root)
            return cs.cls(j)
        if isinstance(seq, SList):
            seq = seq.seq
        if isinstance(seq, SeqGen):
            g = seq

            def body(x):
                cenv = I.Env(g.env, None, g.env.glob, g.env.func)
                ip.bind_comp(g.node.generators[0].target, x, cenv)
                return ip.ev(g.node.elt, cenv)
            seq = ip.map_rule(g.seq, body)
        if isinstance(seq, (SSeq, I.Many)):
            h = ip.cx.ghost.get('join')
            if h is not None:
                return h(ip, s, seq)
            raise Unsupported('join of unknown sequence')
        parts = []
        for i, x in enumerate(seq.iterate(ip) if isinstance(seq, LazyIter) else ip.items_of(seq)):
            if not isinstance(x, (SBytes, bytes) if self._cls(s) is SBytes else (SStr, str)):
                raise PyExc(TypeError('sequence item %d: wrong type %s' % (i, ip.show(x))))
            if i:
                parts.append(s)
            parts.append(x)
        return STR.concat(ip, parts, self._cls(s))

    def s_isdigit(self, s):
        if self._conc(s):
            return s.isdigit()
        if isinstance(s, SBytes):
            return SBool(z3.InRe(s.t, R('digits')))
        self.ip.cx.axiom('str.isdigit on ASCII', z3.Implies(
            z3.InRe(s.t, R('ascii*')), UF['isdigit_u'](s.t) == z3.InRe(s.t, R('digits'))))
        return SBool(UF['isdigit_u'](s.t))

    def s_isalnum(self, s):
        if self._conc(s):
            return s.isalnum()
        if s.info and s.info[0] == 'delchar':
            base, ch = s.info[1], s.info[2]
            rx = z3.Concat(z3.Star(z3.Re(zs(ch))), R('alnum'),
                           z3.Star(z3.Union(R('alnum'), z3.Re(zs(ch)))))
            return SBool(z3.InRe(base.t, rx)) if isinstance(s, SBytes) else self._uni(
                'isalnum_u', s, base, rx)
        rx = z3.Plus(R('alnum'))
        if isinstance(s, SBytes):
            return SBool(z3.InRe(s.t, rx))
        return self._uni('isalnum_u', s, s, rx)

    def _uni(self, fn, s, base, rx):
        self.ip.cx.axiom('str.%s on ASCII' % fn, z3.Implies(
            z3.InRe(base.t, R('ascii*')), UF[fn](s.t) == z3.InRe(base.t, rx)))
        return SBool(UF[fn](s.t))

    def s_isalpha(self, s):
        if self._conc(s):
            return s.isalpha()
        rx = z3.Plus(R('alpha'))
        if isinstance(s, SBytes):
            return SBool(z3.InRe(s.t, rx))
        return self._uni('isalpha_u', s, s, rx)

    def pieces_free_of(self, s, ch):
        """s as a list of literals (host text) and terms known not to contain the character, or None."""
        c = ord(ch)
        other = z3.Union(*[re_range(lo, hi) for lo, hi in ((0, c - 1), (c + 1, 255 if isinstance(s, SBytes) else 0x2ffff)) if lo <= hi])
        ps = list(STR.flatten(z3.simplify(s.t)))
        if len(ps) < 2 and not isinstance(s, SBytes):
            return None
        for p in ps:
            if not isinstance(p, str) and not STR.in_star(self.ip.cx, p, other):
                return None
        return ps

    def of_pieces(self, s, ps):
        ps = [p for p in ps if not (isinstance(p, str) and p == '')]
        if not ps:
            return b'' if isinstance(s, SBytes) else ''
        ts = [zs(p) if isinstance(p, str) else p for p in ps]
        return self._cls(s)(ts[0] if len(ts) == 1 else z3.Concat(*ts))

    def s_replace(self, s, a, b, count=-1):
        if self._conc(s, a, b):
            return self.ip.host(lambda: s.replace(a, b, count))
        if isinstance(a, (str, bytes)) and len(a) == 1 and isinstance(b, (str, bytes)) and count == -1:
            ps = self.pieces_free_of(s, a)
            if ps is not None:
                x, y = [v if isinstance(v, str) else v.decode('latin-1') for v in (a, b)]
                return self.of_pieces(s, [p.replace(x, y) if isinstance(p, str) else p for p in ps])
        if isinstance(a, (str, bytes)) and len(a) == 1 and isinstance(b, (str, bytes)) and len(b) == 0:
            r = self._cls(s)(z3.String(self.ip.cx.name('replaced')), ('delchar', s, a))
            # ASCII-ness is preserved
            self.ip.cx.axiom('s.replace(c, "") keeps ASCII and deletes only c', z3.And(
                z3.Implies(z3.InRe(s.t, R('ascii*')), z3.InRe(r.t, R('ascii*'))),
                z3.Implies(z3.Not(z3.Contains(s.t, zs(a))), r.t == s.t),
                z3.Not(z3.Contains(r.t, zs(a)))))
            return r
        r = self._cls(s)(z3.String(self.ip.cx.name('replaced')), ('replace', s, a, b))
        self.ip.cx.add(z3.Implies(z3.Not(z3.Contains(STR.term(s), STR.term(a))), r.t == STR.term(s)))
        if self._cls(s) is SBytes:
            self.ip.cx.add(z3.InRe(r.t, R('byte*')))
        return r

    def s_startswith(self, s, p):
        if isinstance(p, tuple):
            return any(self.ip.truth(self.s_startswith(s, x)) for x in p)
        if self._conc(s, p):
            return self.ip.host(lambda: s.startswith(p))
        self._same(s, p)
        return SBool(z3.PrefixOf(STR.term(p), STR.term(s)))

    def s_endswith(self, s, p):
        if isinstance(p, tuple):
            return any(self.ip.truth(self.s_endswith(s, x)) for x in p)
        if self._conc(s, p):
            return self.ip.host(lambda: s.endswith(p))
        self._same(s, p)
        return SBool(z3.SuffixOf(STR.term(p), STR.term(s)))

    def _same(self, a, b):
        if self._cls(a) is not self._cls(b) or not isinstance(b, (Sym, str, bytes)):
            raise PyExc(TypeError('bytes/str mismatch'))

    def s_lower(self, s):
        if self._conc(s):
            return s.lower()
        return self._cls(s)(UF['lower'](s.t))

    def s_upper(self, s):
        if self._conc(s):
            return s.upper()
        return self._cls(s)(UF['upper'](s.t))

    def s_find(self, s, p, *a):
        if self._conc(s, p):
            return s.find(p, *a)
        return SInt(z3.IndexOf(STR.term(s), STR.term(p), a[0] if a else 0))

    def s_strip(self, s, chars=None):
        if self._conc(s, chars):
            return self.ip.host(lambda: s.strip(chars))
        ip, cx = self.ip, self.ip.cx
        lead, tail, mid = (z3.String(cx.name(x)) for x in ('lead', 'tail', 'mid'))
        if chars is None:
            ws = z3.Union(z3.Re(zs(' ')), re_range(9, 13))
        else:
            ws = z3.Union(*[z3.Re(zs(chr(c) if isinstance(c, int) else c)) for c in chars]) \
                if len(chars) > 1 else z3.Re(zs(chars))
        cx.assume(z3.And(s.t == z3.Concat(lead, mid, tail), z3.InRe(lead, z3.Star(ws)),
                         z3.InRe(tail, z3.Star(ws)),
                         z3.Not(z3.InRe(mid, z3.Concat(ws, R('all')))),
                         z3.Not(z3.InRe(mid, z3.Concat(R('all'), ws)))))
        return self._cls(s)(mid)

    def s_split(self, s, sep=None, maxsplit=-1):
        ip, cx = self.ip, self.ip.cx
        if self._conc(s, sep):
            return ip.host(lambda: s.split(sep, maxsplit))
        if sep is None:
            raise Unsupported('split() on symbolic')
        # fork on the number of separators, bounded by the contract ('unroll')
        if maxsplit == -1 and isinstance(sep, (str, bytes)) and len(sep) == 1:
            ps = self.pieces_free_of(s, sep)
            if ps is not None:
                x = sep if isinstance(sep, str) else sep.decode('latin-1')
                out = [[]]
                for p in ps:
                    if not isinstance(p, str):
                        out[-1].append(p)
                        continue
                    for k, q in enumerate(p.split(x)):
                        if k:
                            out.append([])
                        out[-1].append(q)
                return [self.of_pieces(s, q) for q in out]
        if maxsplit != -1:
            out = []
            rest = s
            for _ in range(maxsplit):
                cut = STR.syntactic_cut(cx, STR.term(rest), sep) if not isinstance(sep, Sym) else None
                if cut == 'absent':
                    break
                if cut is not None:
                    out.append(self._cls(s)(cut[0]) if not isinstance(cut[0], (str, bytes)) else cut[0])
                    rest = self._cls(s)(cut[1])
                    continue
                if not cx.branch(z3.Contains(STR.term(rest), STR.term(sep))):
                    break
                if isinstance(sep, Sym) or len(sep) != 1:
                    i = z3.IndexOf(rest.t, STR.term(sep), 0)
                    out.append(self._cls(s)(z3.SubString(rest.t, 0, i)))
                    rest = self._cls(s)(z3.SubString(rest.t, i + z3.Length(STR.term(sep)), z3.Length(rest.t)))
                    continue
                c = ord(sep)
                other = z3.Star(z3.Union(*[re_range(lo, hi) for lo, hi in ((0, c - 1), (c + 1, 255)) if lo <= hi]))
                a, b = z3.String(cx.name('before')), z3.String(cx.name('after'))
                cx.axiom('split at the first separator', z3.And(rest.t == z3.Concat(a, zs(chr(c)), b), z3.InRe(a, other)
                         if self._cls(s) is SBytes else z3.Not(z3.Contains(a, zs(chr(c))))))
                out.append(self._cls(s)(a))
                rest = self._cls(s)(b)
            return out + [rest]
        h = cx.ghost.get('split')
        if h is not None:
            return h(ip, s, sep)
        raise Unsupported('split of symbolic string')

    def s_rsplit(self, s, sep=None, maxsplit=-1):
        if self._conc(s, sep):
            return self.ip.host(lambda: s.rsplit(sep, maxsplit))
        raise Unsupported('rsplit')

    def s_format(self, s, *args, **kw):
        ip = self.ip
        if isinstance(s, Sym):
            raise Unsupported('symbolic format string')
        import string
        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(lit)
            if field is None:
                continue
            m = re.match(r'^([^.\[]*)(.*)$', field)
            first, rest = m.group(1), m.group(2)
            if first == '':
                first = str(auto)
                auto += 1
            if first.isdigit():
                if int(first) >= len(args):
                    raise PyExc(IndexError('Replacement index out of range'))
                v = args[int(first)]
            else:
                if first not in kw:
                    raise PyExc(KeyError(first))
                v = kw[first]
            for mm in re.finditer(r'\.([A-Za-z_0-9]+)|\[([^\]]*)\]', rest):
                if mm.group(1):
                    v = ip.getattr(v, mm.group(1))
                else:
                    k = mm.group(2)
                    v = self.getitem(v, int(k) if k.isdigit() else k)
            if conv == 'r':
                parts.append(self.repr_(v))
            elif spec:
                if isinstance(v, NDecimal) and spec == 'f':
                    parts.append(v.fixed(ip))
                elif deep_concrete(v) or type(v).__name__ == 'Decimal':
                    parts.append(ip.host(lambda: format(v, spec)))
                else:
                    r = z3.String(ip.cx.name('fmt'))
                    if isinstance(v, (SReal, SInt)) and spec.isascii():
                        ip.cx.axiom('formatted numbers are ASCII', z3.InRe(r, STR.R('ascii*')))
                    parts.append(SStr(r))
            else:
                parts.append(self.str_(v))
        return STR.concat_str(ip, parts)

    # ------------------------------------------------------------ str(), repr(), %
    def str_(self, v):
        ip = self.ip
        if isinstance(v, (str, SStr)):
            return v
        if isinstance(v, IObj):
            f, _ = v.cls.lookup('__str__')
            if f is not MISSING:
                r = ip.call(f, [v])
                if not isinstance(r, (str, SStr)):
                    raise PyExc(TypeError('__str__ returned non-string'))
                return r
            if v.payload is not None and ip.isinstance_(v, BaseException):
                if len(v.payload) == 1:
                    return self.str_(v.payload[0])
                if len(v.payload) == 0:
                    return ''
                return SStr(z3.String(ip.cx.name('excstr')))
            return self.repr_(v)
        if isinstance(v, BaseException):
            sa = getattr(v, 'symargs', None)
            if sa is not None and len(sa) == 1:
                return self.str_(sa[0])
            return str(v)
        if isinstance(v, SInt):
            return STR.int_to_str(ip, v, SStr)
        if isinstance(v, SReal):
            return STR.float_repr(ip, v, SStr)
        if isinstance(v, SBool):
            return 'True' if ip.truth(v) else 'False'
        if deep_concrete(v):
            return str(v)
        return SStr(z3.String(ip.cx.name('str')))

    def repr_(self, v):
        ip = self.ip
        if isinstance(v, IObj):
            f, _ = v.cls.lookup('__repr__')
            if f is not MISSING:
                return ip.call(f, [v])
            return SStr(z3.String(ip.cx.name('repr')))
        if isinstance(v, (list, tuple)):
            for x in v:
                self.repr_(x)
        if isinstance(v, SInt):
            return STR.int_to_str(ip, v, SStr)
        if isinstance(v, SReal):
            return STR.float_repr(ip, v, SStr)
        if deep_concrete(v):
            return repr(v)
        return SStr(z3.String(ip.cx.name('repr')))

    def percent(self, fmt, args):
        ip = self.ip
        isb = isinstance(fmt, bytes)
        cls = SBytes if isb else SStr
        if isinstance(args, IObj) and isinstance(args.payload, tuple) and not ip.isinstance_(args, BaseException):
            args = args.payload
        mapping = isinstance(args, (IDict, AttrView)) or (isinstance(args, IObj) and isinstance(args.payload, IDict))
        lst = None if mapping else (list(args) if isinstance(args, tuple) else [args])
        f = fmt.decode('latin1') if isb else fmt
        parts = []
        pos = 0
        used = 0
        for m in re.finditer(r'%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\d+))?([a-zA-Z%])', f):
            if m.start() > pos:
                t = f[pos:m.start()]
                parts.append(t.encode('latin1') if isb else t)
            pos = m.end()
            key, fl, width, prec, c = m.groups()
            if c == '%':
                parts.append(b'%' if isb else '%')
                continue
            if key is not None:
                v = self.getitem(args, key.encode() if isb else key)
            else:
                if lst is None:
                    lst = [args]
                if used >= len(lst):
                    raise PyExc(TypeError('not enough arguments for format string'))
                v = lst[used]
                used += 1
            plain = not fl and not width and not prec
            if c in 'di':
                if not ip.isnum(v):
                    if isinstance(v, SOpaque):
                        raise Unsupported('%d of opaque')
                    raise PyExc(TypeError('%d format: a number is required'))
                if plain:
                    parts.append(STR.int_to_str(ip, v, cls))
                    continue
            elif c == 's' and plain:
                if isb:
                    if isinstance(v, (bytes, SBytes)):
                        parts.append(v)
                        continue
                    if isinstance(v, IObj) and v.cls.lookup('__bytes__')[0] is not MISSING:
                        parts.append(ip.call(v.cls.lookup('__bytes__')[0], [v]))
                        continue
                    raise PyExc(TypeError('%b requires a bytes-like object'))
                parts.append(self.str_(v))
                continue
            elif c in 'ra' and plain:
                if isinstance(v, SReal):
                    parts.append(STR.float_repr(ip, v, cls))
                    continue
                r = self.repr_(v)
                parts.append(STR.encode(ip, r) if isb and isinstance(r, str) else
                             (SBytes(z3.String(ip.cx.name('repr'))) if isb else r))
                continue
            elif c in 'eEfFgGxXo' and not ip.isnum(v):
                raise PyExc(TypeError('must be real number'))
            if deep_concrete(v):
                spec = '%' + fl + (width or '') + ('.' + prec if prec else '') + c
                r = ip.host(lambda: (spec.encode() % v) if isb else (spec % v))
                parts.append(r)
            elif c == 'f' and not fl and not width:
                parts.append(STR.float_fixed(ip, v, int(prec) if prec else 6, cls))
            else:
                parts.append(cls(z3.String(ip.cx.name('fmt'))))
        if pos < len(f):
            parts.append(f[pos:].encode('latin1') if isb else f[pos:])
        if lst is not None and used < len(lst) and not mapping and key_none(f):
            raise PyExc(TypeError('not all arguments converted during string formatting'))
        return STR.concat(ip, parts, cls)

    # ------------------------------------------------------------ binary operators
    def binop(self, op, a, b):
        ip = self.ip
        t = type(op)
        if t is ast.Mod and isinstance(a, (str, bytes)):
            return self.percent(a, b)
        if t is ast.Add:
            if isinstance(a, (SBytes, bytes)) and isinstance(b, (SBytes, bytes)):
                return STR.concat_bytes(ip, [a, b])
            if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
                return STR.concat_str(ip, [a, b])
            if isinstance(a, list) and isinstance(b, list):
                return a + b
            if isinstance(a, (list, I.Many, I.ManyCat)) and isinstance(b, (list, I.Many, I.ManyCat)):
                return I.ManyCat([p for x in (a, b) for p in (x.parts if isinstance(x, I.ManyCat) else [x])])
            pa = a.payload if isinstance(a, IObj) and isinstance(a.payload, tuple) else a
            pb = b.payload if isinstance(b, IObj) and isinstance(b.payload, tuple) else b
            if isinstance(pa, tuple) and isinstance(pb, tuple):
                return pa + pb
            if isinstance(pb, (SSeq, SList)) and isinstance(pa, (list, tuple)):
                seq = pb.seq if isinstance(pb, SList) else pb
                r = I.seq_prepend(ip, list(pa), seq)
                return SList(r) if isinstance(pa, list) else r
        if ip.isnum(a) and ip.isnum(b) and (isinstance(a, Sym) or isinstance(b, Sym)):
            for u in (a, b):
                if isinstance(u, float) and (u != u or u in (float('inf'), -float('inf'))):
                    if u != u:
                        return u
                    raise Unsupported('arithmetic with infinity')
            if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)) or t is ast.Div:
                x, y = ip.num_pair(a, b)
                if x.sort() == z3.IntSort():
                    x, y = z3.ToReal(x), z3.ToReal(y)
                if t is ast.Add:
                    return SReal(x + y)
                if t is ast.Sub:
                    return SReal(x - y)
                if t is ast.Mult:
                    return SReal(x * y)
                if t is ast.Div:
                    if ip.cx.branch(y == 0):
                        raise PyExc(ZeroDivisionError('division by zero'))
                    return SReal(x / y)
                if t is ast.Pow and isinstance(b, int) and 0 <= b <= 4:
                    r = z3.RealVal(1)
                    for _ in range(b):
                        r = r * x
                    return SReal(r)
                raise Unsupported('float op %s' % t.__name__)
            x, y = ip.znum(a), ip.znum(b)
            if t is ast.Add:
                return SInt(x + y)
            if t is ast.Sub:
                return SInt(x - y)
            if t is ast.Mult:
                return SInt(x * y)
            if t in (ast.Mod, ast.FloorDiv):
                if ip.cx.branch(y == 0):
                    raise PyExc(ZeroDivisionError('division by zero'))
                if isinstance(b, int) and b > 0:
                    return SInt(x % y if t is ast.Mod else x / y)
            raise Unsupported('int op %s' % t.__name__)
        if isinstance(a, ISet) or isinstance(b, ISet):
            if isinstance(a, ISet) and isinstance(b, (ISet, set, frozenset)):
                m = {ast.BitOr: self.set_union, ast.BitAnd: self.set_intersection,
                     ast.Sub: self.set_difference, ast.BitXor: self.set_symmetric_difference}.get(t)
                if m:
                    return m(a, b)
            if isinstance(a, (set, frozenset)):
                return self.binop(op, self.from_host(a), b)
            raise PyExc(TypeError('unsupported operand'))
        if isinstance(a, IObj):
            nm = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Mod: '__mod__',
                  ast.Div: '__truediv__', ast.BitOr: '__or__', ast.BitAnd: '__and__'}.get(t)
            if nm:
                f, _ = a.cls.lookup(nm)
                if f is not MISSING:
                    return ip.call(f, [a, b])
        if t is ast.Mult and isinstance(a, (list, tuple, str, bytes)) and isinstance(b, int):
            return a * b
        if t is ast.Mult and isinstance(b, (list, tuple, str, bytes)) and isinstance(a, int):
            return a * b
        if isinstance(a, (SOpaque, Opaque)) or isinstance(b, (SOpaque, Opaque)):
            raise Unsupported('operator on %r, %r' % (a, b))
        if (deep_concrete(a) and deep_concrete(b)):
            fn = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
                  ast.Div: operator.truediv, ast.Mod: operator.mod, ast.FloorDiv: operator.floordiv,
                  ast.Pow: operator.pow, ast.BitOr: operator.or_, ast.BitAnd: operator.and_,
                  ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}[t]
            return ip.host(lambda: fn(a, b))
        raise PyExc(TypeError('unsupported operand type(s) for %s' % t.__name__))

    # ------------------------------------------------------------ containers
    def len_(self, v):
        ip = self.ip
        if isinstance(v, (SBytes, SStr)):
            if v.info and v.info[0] == 'len':           # a string of which nothing, not even its length, is known
                return v.info[1]
            return SInt(z3.Length(v.t))
        if isinstance(v, SSeq):
            return self._num(v.length)
        if isinstance(v, SList):
            return self._num(v.seq.length)
        if isinstance(v, I.ManyCat):
            n = 0
            for p in v.parts:
                n = n + (p.size if isinstance(p, I.Many) else len(p))
            return self._num(n)
        m = I.as_many(ip, v)
        if m is not None:
            return self._num(m.size)
        if isinstance(v, IDict):
            v.need_concrete()
            return len(v.items)
        if isinstance(v, ISet):
            if v.rest is not None:
                raise Unsupported('len of unknown set')
            return len(v.elems)
        if isinstance(v, IObj):
            f, _ = v.cls.lookup('__len__')
            if f is not MISSING:
                return ip.call(f, [v])
            if v.payload is not None:
                return self.len_(v.payload)
        if isinstance(v, NObj):
            m = v.get(ip, '__len__')
            if m is not MISSING:
                return ip.call(m, [])
        if isinstance(v, (Sym, SOpaque, IObj, IFunc, IClass)) or v is None:
            raise PyExc(TypeError('object has no len()'))
        return ip.host(lambda: len(v))

    def _num(self, t):
        t = z3.simplify(t) if z3.is_expr(t) else z3.IntVal(t)
        return t.as_long() if z3.is_int_value(t) else SInt(t)

    def getitem(self, o, k):
        ip, cx = self.ip, self.ip.cx
        if isinstance(o, IObj):
            f, _ = o.cls.lookup('__getitem__')
            if f is not MISSING:
                return ip.call(f, [o, k])
            if o.payload is not None:
                return self.getitem(o.payload, k)
        if isinstance(o, NObj):
            m = o.get(ip, '__getitem__')
            if m is not MISSING:
                return ip.call(m, [k])
        if isinstance(o, IDict):
            it = o.find(ip, k)
            if it is None:
                if o.default_factory is not None:
                    v = ip.call(o.default_factory, [])
                    o.items.append([k, v])
                    return v
                e = KeyError(k if deep_concrete(k) else '<sym>')
                raise PyExc(e)
            return it[1]
        if isinstance(o, (SSeq, SList)):
            seq = o.seq if isinstance(o, SList) else o
            if isinstance(k, slice):
                return self.seq_slice(o, seq, k)
            if isinstance(k, (int, SInt)) and not isinstance(k, bool):
                kt = z3.IntVal(k) if isinstance(k, int) else k.t
                if isinstance(k, int) and k < 0:
                    if not cx.branch(seq.length >= -k):
                        raise PyExc(IndexError('list index out of range'))
                    return seq.at(cx, seq.length + k)
                if isinstance(k, SInt):
                    if not cx.branch(z3.And(kt >= 0, kt < seq.length)):
                        if cx.branch(z3.And(kt < 0, kt >= -seq.length)):
                            return seq.at(cx, seq.length + kt)
                        raise PyExc(IndexError('list index out of range'))
                    return seq.at(cx, kt)
                if not cx.branch(seq.length > kt):
                    raise PyExc(IndexError('list index out of range'))
                return seq.at(cx, kt)
        if isinstance(o, (list, tuple)) and isinstance(k, SInt):
            for i in range(len(o)):
                if cx.branch(z3.Or(k.t == i, k.t == i - len(o))):
                    return o[i]
            raise PyExc(IndexError('index out of range'))
        if isinstance(o, (SBytes, SStr)) or (isinstance(o, (bytes, str)) and not deep_concrete_slice(k)):
            return self.str_index(o, k)
        if isinstance(o, slice):
            raise Unsupported('slice')
        if isinstance(o, (list, tuple, bytes, str, range)):
            if isinstance(k, slice):
                if any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)):
                    raise Unsupported('symbolic slice')
                return ip.host(lambda: o[k])
            if isinstance(k, bool) or isinstance(k, int):
                return ip.host(lambda: o[k])
            raise PyExc(TypeError('indices must be integers'))
        if isinstance(o, AttrView):
            if k in o.obj.attrs:
                return o.obj.attrs[k]
            raise PyExc(KeyError(k))
        if isinstance(o, dict):
            return ip.host(lambda: o[k])
        if o is None or isinstance(o, (int, float, SInt, SReal, SBool, IObj)):
            raise PyExc(TypeError('object is not subscriptable'))
        if isinstance(o, (re.Match,)):
            return ip.host(lambda: o[k])
        raise Unsupported('getitem on %r' % (o,))

    def str_index(self, o, k):
        ip, cx = self.ip, self.ip.cx
        t = STR.term(o)
        n = z3.Length(t)
        cls = self._cls(o)

        def tint(x, d):
            if x is None:
                return d
            return z3.IntVal(x) if isinstance(x, int) else x.t
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported('slice step')
            start = 0 if k.start is None else k.start
            if isinstance(start, int) and start >= 0 and (
                    k.stop is None or (isinstance(k.stop, int) and k.stop >= 0)):
                # a slice that stays within / just drops a literal prefix
                ps = STR.flatten(z3.simplify(t))
                lit = 0
                while lit < len(ps) and isinstance(ps[lit], str):
                    lit += 1
                lo = start
                if k.stop is not None and k.stop <= lit:
                    return self._mk(cls, ''.join(ps[lo:k.stop]))
                if k.stop is None and lo <= lit and lo > 0:
                    rest = [zs(p) if isinstance(p, str) else p for p in ps[lo:]]
                    if not rest:
                        return self._mk(cls, '')
                    return STR.wrap_like(o, rest[0] if len(rest) == 1 else z3.Concat(*rest))
            a, b = tint(k.start, z3.IntVal(0)), tint(k.stop, n)

            def clamp(x):
                x = z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), x)
                return z3.If(x > n, n, x)
            a, b = clamp(a), clamp(b)
            r = z3.simplify(z3.If(b > a, z3.SubString(t, a, b - a), zs('')))
            return STR.wrap_like(o, r)
        kt = tint(k, None)
        idx = z3.If(kt < 0, kt + n, kt)
        if not cx.branch(z3.And(idx >= 0, idx < n)):
            raise PyExc(IndexError('string index out of range'))
        c = z3.SubString(t, idx, 1)
        if cls is SBytes:
            return SInt(z3.StrToCode(c))
        return SStr(z3.simplify(c))

    def _mk(self, cls, text):
        return text.encode('latin-1') if cls is SBytes else text

    def seq_slice(self, o, seq, k):
        cx = self.ip.cx
        if k.step not in (None, 1):
            raise Unsupported('slice step')
        n = seq.length
        lo = 0 if k.start is None else k.start
        hi = k.stop
        if isinstance(lo, Sym) or isinstance(hi, Sym):
            raise Unsupported('symbolic slice of unknown sequence')
        if hi is None and lo >= 0:
            ln = z3.simplify(z3.If(n > lo, n - lo, z3.IntVal(0)))
            r = SSeq(ln, lambda i: seq.at(cx, i + lo), seq.kind, seq.name + '[%d:]' % lo)
        elif lo == 0 and hi is not None and hi < 0:
            ln = z3.simplify(z3.If(n > -hi, n + hi, z3.IntVal(0)))
            r = SSeq(ln, lambda i: seq.at(cx, i), seq.kind, seq.name + '[:%d]' % hi)
        elif hi is not None and hi >= 0 and lo >= 0:
            # finite prefix: fork on the length
            for j in range(lo, hi):
                if not cx.branch(n > j):
                    return [seq.at(cx, i) for i in range(lo, j)]
            return [seq.at(cx, i) for i in range(lo, hi)]
        else:
            raise Unsupported('slice of unknown sequence')
        return SList(r) if isinstance(o, SList) else r

    def setitem(self, o, k, v):
        ip = self.ip
        if isinstance(o, IObj):
            f, _ = o.cls.lookup('__setitem__')
            if f is not MISSING:
                return ip.call(f, [o, k, v])
            if o.payload is not None:
                return self.setitem(o.payload, k, v)
        if isinstance(o, NObj):
            m = o.get(ip, '__setitem__')
            if m is not MISSING:
                return ip.call(m, [k, v])
        if isinstance(o, IDict):
            if isinstance(k, (list, IDict)) or (isinstance(k, ISet) and not k.is_frozenset):
                raise PyExc(TypeError('unhashable type'))
            return o.set(ip, k, v)
        if isinstance(o, list):
            if isinstance(k, (int, slice)):
                if isinstance(k, slice):
                    v = list(ip.items_of(v))

                def st():
                    o[k] = v
                return ip.host(st)
        if isinstance(o, (tuple, str, bytes, SStr, SBytes)):
            raise PyExc(TypeError('object does not support item assignment'))
        raise Unsupported('setitem on %r' % (o,))

    def delitem(self, o, k):
        ip = self.ip
        if isinstance(o, IObj):
            f, _ = o.cls.lookup('__delitem__')
            if f is not MISSING:
                return ip.call(f, [o, k])
            if o.payload is not None:
                return self.delitem(o.payload, k)
        if isinstance(o, IDict):
            if not o.delete(ip, k):
                raise PyExc(KeyError(k if deep_concrete(k) else '<sym>'))
            return
        if isinstance(o, list):
            def d():
                del o[k]
            return ip.host(d)
        if isinstance(o, SList):
            seq = o.seq
            cx = ip.cx
            if k == -1:
                if not cx.branch(seq.length >= 1):
                    raise PyExc(IndexError('list assignment index out of range'))
                o.seq = SSeq(z3.simplify(seq.length - 1), lambda i: seq.at(cx, i), seq.kind, seq.name + '[:-1]')
                return
            if k == 0:
                if not cx.branch(seq.length >= 1):
                    raise PyExc(IndexError('list assignment index out of range'))
                o.seq = SSeq(z3.simplify(seq.length - 1), lambda i: seq.at(cx, i + 1), seq.kind, seq.name + '[1:]')
                return
        raise Unsupported('delitem on %r' % (o,))

    def contains(self, c, x):
        ip = self.ip
        if isinstance(c, IObj):
            f, _ = c.cls.lookup('__contains__')
            if f is not MISSING:
                return ip.call(f, [c, x])
            if c.payload is not None:
                return self.contains(c.payload, x)
            return self.contains(list(ip.items_of(c)), x)
        if isinstance(c, NObj):
            m = c.get(ip, '__contains__')
            if m is not MISSING:
                return ip.call(m, [x])
        if isinstance(c, IDict):
            if isinstance(x, (list, IDict)):
                raise PyExc(TypeError('unhashable type'))
            return c.find(ip, x) is not None
        if isinstance(c, ISet):
            if isinstance(x, (list, IDict)):
                raise PyExc(TypeError('unhashable type'))
            if isinstance(c, I.CharSet):
                return ip.wrapb(c.has_term(ip, x))
            return c.has(ip, x)
        if isinstance(c, (list, tuple)):
            for e in c:
                if e is x or ip.truth(ip.eq(e, x)):
                    return True
            return False
        if isinstance(c, (str, bytes, SStr, SBytes)):
            if not isinstance(x, (str, bytes, SStr, SBytes)) or self._cls(c) is not self._cls(x):
                if isinstance(x, int) and isinstance(c, (bytes,)):
                    return x in c
                raise PyExc(TypeError("'in <string>' requires string"))
            if self._conc(c, x):
                return x in c
            return SBool(z3.Contains(STR.term(c), STR.term(x)))
        if isinstance(c, (range, set, frozenset, dict)):
            if isinstance(x, Sym):
                for e in c:
                    if ip.truth(ip.eq(e, x)):
                        return True
                return False
            return ip.host(lambda: x in c)
        if isinstance(c, LazyIter):
            for e in c.iterate(ip):
                if ip.truth(ip.eq(e, x)):
                    return True
            return False
        if isinstance(c, AttrView):
            return x in c.obj.attrs
        if c is None or isinstance(c, (int, float, SInt, SReal)):
            raise PyExc(TypeError('argument is not iterable'))
        raise Unsupported('in %r' % (c,))

    def sort(self, lst, key, reverse):
        ip = self.ip
        keys = [ip.call(key, [x]) if key is not None else x for x in lst]
        out = []
        for x, k in zip(lst, keys):
            i = len(out)
            while i > 0:
                a, b = (k, out[i - 1][0])
                less = ip.truth(ip.compare(ast.Gt() if reverse else ast.Lt(), a, b))
                if less:
                    i -= 1
                else:
                    break
            out.insert(i, (k, x))
        return [x for _, x in out]

    # dict methods
    def dict_get(self, d, k, default=None):
        it = d.find(self.ip, k)
        return it[1] if it is not None else default

    def dict_keys(self, d):
        if getattr(d, 'pairs', None) is not None:
            return d.pairs.derive(self.ip, lambda kv: kv[0])
        if d.rest is not None and d.many is not None:
            return I.dict_many(self.ip, d, lambda it: it[0], True)
        d.need_concrete()
        return [k for k, _ in d.items]

    def dict_values(self, d):
        if getattr(d, 'pairs', None) is not None:
            return d.pairs.derive(self.ip, lambda kv: kv[1])
        if d.rest is not None and d.many is not None:
            return I.dict_many(self.ip, d, lambda it: it[1], True)
        d.need_concrete()
        return [v for _, v in d.items]

    def dict_items(self, d):
        if getattr(d, 'pairs', None) is not None:
            return d.pairs
        if d.rest is not None and d.many is not None:
            return I.dict_many(self.ip, d, lambda it: (it[0], it[1]), True)
        d.need_concrete()
        return [(k, v) for k, v in d.items]
    dict_iteritems = dict_items

    def dict_pop(self, d, k, *default):
        it = d.find(self.ip, k)
        if it is None:
            if default:
                return default[0]
            raise PyExc(KeyError(k if deep_concrete(k) else '<sym>'))
        d.delete(self.ip, k)
        return it[1]

    def dict_popitem(self, d):
        d.need_concrete()
        if not d.items:
            raise PyExc(KeyError('popitem(): dictionary is empty'))
        k, v = d.items.pop()
        return (k, v)

    def dict_setdefault(self, d, k, v=None):
        it = d.find(self.ip, k)
        if it is not None:
            return it[1]
        d.items.append([k, v])
        return v

    def dict_update(self, d, args=(), kw=None, **kk):
        ip = self.ip
        if isinstance(args, (list, tuple)) and (kw is not None or (args and isinstance(args, (list, tuple)))
                                                or not args):
            srcs = args
        else:
            srcs = [args]
        if kw is None and isinstance(args, (list, tuple)) and args and isinstance(args[0], tuple):
            srcs = [args]
        for s in srcs:
            if isinstance(s, IObj) and isinstance(s.payload, IDict):
                s = s.payload
            if isinstance(s, (IDict, dict, AttrView)):
                for k, v in ip.dict_items(s):
                    d.set(ip, k, v)
            else:
                for pair in ip.items_of(s):
                    k, v = ip.items_of(pair)
                    d.set(ip, k, v)
        for k, v in dict(kw or {}, **kk).items():
            d.set(ip, k, v)

    def dict_clear(self, d):
        self.ip.mutating(d)
        d.items = []
        d.rest = None
        d.excluded = []
        d.size = None
        d.version += 1

    def dict_copy(self, d):
        return self.shallow(d)

    def dict_has_key(self, d, k):
        return d.find(self.ip, k) is not None

    # set methods
    def _it(self, x):
        return self.ip.items_of(x)

    def set_add(self, s, x):
        s.add(self.ip, x)

    def set_remove(self, s, x):
        if not s.remove(self.ip, x):
            raise PyExc(KeyError(x if deep_concrete(x) else '<sym>'))

    def set_discard(self, s, x):
        s.remove(self.ip, x)

    def set_pop(self, s):
        if s.rest is not None:
            raise Unsupported('pop of unknown set')
        if not s.elems:
            raise PyExc(KeyError('pop from an empty set'))
        return s.elems.pop()

    def set_clear(self, s):
        s.elems = []
        s.rest = None

    def set_copy(self, s):
        return self.shallow(s)

    def set_update(self, s, *others):
        for o in others:
            for x in self._it(o):
                s.add(self.ip, x)

    def set_difference_update(self, s, *others):
        for o in others:
            for x in list(self._it(o)):
                s.remove(self.ip, x)

    def set_intersection_update(self, s, o):
        s.elems = self.set_intersection(s, o).elems

    def set_union(self, s, *others):
        r = ISet(s.elems, s.is_frozenset)
        for o in others:
            for x in self._it(o):
                r.add(self.ip, x)
        return r

    def set_intersection(self, s, o):
        o = o if isinstance(o, ISet) else ISet(self._it(o))
        return ISet([x for x in self._it(s) if o.has(self.ip, x)], s.is_frozenset)

    def set_difference(self, s, *os):
        out = list(self._it(s))
        for o in os:
            o = o if isinstance(o, ISet) else ISet(self._it(o))
            out = [x for x in out if not o.has(self.ip, x)]
        return ISet(out, s.is_frozenset)

    def set_symmetric_difference(self, s, o):
        return ISet(self.set_difference(s, o).elems + self.set_difference(o, s).elems)

    def set_issubset(self, s, o):
        o = o if isinstance(o, ISet) else ISet(self._it(o))
        return all(o.has(self.ip, x) for x in self._it(s))

    def set_issuperset(self, s, o):
        return all(s.has(self.ip, x) for x in self._it(o))

    def set_isdisjoint(self, s, o):
        return not any(s.has(self.ip, x) for x in self._it(o))

    # list methods
    def list_append(self, l, x):
        l.append(x)

    def list_appendleft(self, l, x):
        l.insert(0, x)

    def list_popleft(self, l):
        return self.list_pop(l, 0)

    def list_extend(self, l, xs):
        l.extend(self._it(xs))

    def list_insert(self, l, i, x):
        l.insert(i, x)

    def list_pop(self, l, i=-1):
        return self.ip.host(lambda: l.pop(i))

    def list_remove(self, l, x):
        for i, e in enumerate(l):
            if e is x or self.ip.truth(self.ip.eq(e, x)):
                del l[i]
                return
        raise PyExc(ValueError('list.remove(x): x not in list'))

    def list_index(self, l, x, *a):
        for i, e in enumerate(l):
            if e is x or self.ip.truth(self.ip.eq(e, x)):
                return i
        raise PyExc(ValueError('not in list'))

    def list_count(self, l, x):
        return sum(1 for e in l if self.ip.truth(self.ip.eq(e, x)))

    def list_sort(self, l, key=None, reverse=False):
        l[:] = self.sort(list(l), key, reverse)

    def list_reverse(self, l):
        l.reverse()

    def list_copy(self, l):
        return list(l)

    def list_clear(self, l):
        del l[:]

    def slist_append(self, l, x):
        cx = self.ip.cx
        seq = l.seq

        def elem(i):
            if cx.branch(i == seq.length):
                return x
            return seq.at(cx, i)
        l.seq = SSeq(seq.length + 1, elem, seq.kind, seq.name + '+1')

    def slist_pop(self, l, i=-1):
        v = self.getitem(l, i)
        self.delitem(l, i)
        return v


def key_none(f):
    return '%(' not in f


def deep_concrete_slice(k):
    if isinstance(k, slice):
        return not any(isinstance(x, Sym) for x in (k.start, k.stop, k.step))
    return not isinstance(k, Sym)


class NPattern(NObj):
    """re.compile of an unknown pattern: matching is an unknown relation."""
    clsname = 'Pattern'

    def __init__(self, src):
        self.src = src

    def m_search(self, ip, s):
        f = z3.Function('re_search', z3.StringSort(), z3.StringSort(), z3.BoolSort())
        if ip.cx.branch(f(STR.term(self.src), STR.term(s))):
            return NObj()
        return None


_excs = {}


def Opaque_exc(path):
    if path not in _excs:
        _excs[path] = IClass(path.split('.')[-1], [Exception], {}, None, path.rsplit('.', 1)[0])
    return _excs[path]


# ---------------------------------------------------------------- conversions
CALLS = {}


def conv(t):
    def d(f):
        CALLS[t] = f
        return f
    return d


@conv(int)
def _int(lib, args, kw):
    ip = lib.ip
    if not args:
        return 0
    v = args[0]
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return SInt(ip.znum(v))
    if isinstance(v, SReal):
        return SInt(STR.trunc(v.t))
    if isinstance(v, (SBytes, SStr)):
        return STR.str_to_int(ip, v)
    if deep_concrete(v):
        return ip.host(lambda: int(*args, **kw))
    if isinstance(v, SOpaque):
        if v.kind is None:
            raise Unsupported('int of opaque')
    raise PyExc(TypeError('int() argument'))


@conv(float)
def _float(lib, args, kw):
    ip = lib.ip
    if not args:
        return 0.0
    v = args[0]
    if isinstance(v, SReal):
        return v
    if isinstance(v, (SInt, SBool)):
        return SReal(z3.ToReal(ip.znum(v)))
    if isinstance(v, (SBytes, SStr)):
        return STR.str_to_float(ip, v)
    if deep_concrete(v):
        return ip.host(lambda: float(v))
    if isinstance(v, SOpaque) and v.kind is None:
        raise Unsupported('float of opaque')
    raise PyExc(TypeError('float() argument'))


@conv(bool)
def _bool(lib, args, kw):
    if args and isinstance(args[0], SBool):
        return args[0]
    return lib.ip.truth(args[0]) if args else False


@conv(str)
def _str(lib, args, kw):
    if not args:
        return ''
    v = args[0]
    if len(args) > 1 or 'encoding' in kw:
        return STR.decode(lib.ip, v, args[1] if len(args) > 1 else kw['encoding'])
    return lib.str_(v)


@conv(bytes)
def _bytes(lib, args, kw):
    if not args:
        return b''
    v = args[0]
    if isinstance(v, (bytes, SBytes)):
        return v
    if isinstance(v, IObj):
        f, _ = v.cls.lookup('__bytes__')
        if f is not MISSING:
            return lib.ip.call(f, [v])
    if isinstance(v, (str, SStr)):
        if len(args) > 1:
            return STR.encode(lib.ip, v, args[1])
        raise PyExc(TypeError('string argument without an encoding'))
    if deep_concrete(v):
        return lib.ip.host(lambda: bytes(v))
    raise Unsupported('bytes(%r)' % v)


@conv(list)
def _list(lib, args, kw):
    if not args:
        return []
    v = args[0]
    if isinstance(v, I.CharSet):
        return v
    m = I.as_many(lib.ip, v)
    if m is not None:
        return m.copy()
    if isinstance(v, SList):
        return SList(v.seq)
    if isinstance(v, SSeq):
        return SList(v)
    return list(lib.ip.items_of(v))


@conv(tuple)
def _tuple(lib, args, kw):
    if not args:
        return ()
    v = args[0]
    if isinstance(v, I.CharSet):
        return v
    m = I.as_many(lib.ip, v)
    if m is not None:
        return m.copy()
    if isinstance(v, (SList, SSeq)):
        s = v.seq if isinstance(v, SList) else v
        return SSeq(s.length, s._elem, 'tuple', s.name)
    return tuple(lib.ip.items_of(v))


class SortedChars(NObj):
    clsname = 'list'

    def __init__(self, cs):
        self.cs = cs


def char_source(cx, seq):
    """t if seq is exactly the sequence of one-character substrings of string t."""
    j = z3.Int('charprobe')
    try:
        e = seq.at(cx, j)
    except (PathEnd, PyExc):
        return None
    if not isinstance(e, (SBytes, SStr)):
        return None
    cands, todo, seen = [], [e.t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.sort() == z3.StringSort():
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                cands.append(x)
            elif x.decl().name() in ('str.substr', 'str.at'):
                cands.append(x.arg(0))
        todo += x.children()
    for base in cands[:6]:
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(z3.Or(z3.And(j >= 0, j < z3.Length(base), e.t != z3.SubString(base, j, 1)),
                    seq.length != z3.Length(base)))
        if s.check() == z3.unsat:
            return base, type(e)
    return None


@conv(set)
def _set(lib, args, kw):
    s = ISet()
    if args:
        v = args[0].seq if isinstance(args[0], SList) else args[0]
        if isinstance(v, (SBytes, SStr)):
            raise Unsupported('set of a symbolic string')
        if isinstance(v, I.CharSet):
            return v
        if isinstance(v, SSeq):
            src = char_source(lib.ip.cx, v)
            if src is not None:
                links = lib.ip.cx.ghost.get('charset_links', {})
                hit = links.get(z3.simplify(src[0]).get_id())
                return I.CharSet(src[0], src[1], hit[1] if hit else None)
    for x in (lib.ip.items_of(args[0]) if args else ()):
        s.add(lib.ip, x)
    return s


@conv(frozenset)
def _fset(lib, args, kw):
    s = _set(lib, args, kw)
    s.is_frozenset = True
    return s


@conv(dict)
def _dict(lib, args, kw):
    d = IDict()
    if args and isinstance(args[0], IDict) and args[0].rest is not None:
        d = lib.shallow(args[0])
        args = ()
    lib.dict_update(d, list(args), kw)
    return d


@conv(type)
def _type(lib, args, kw):
    if len(args) == 1:
        return lib.ip.type_of(args[0])
    return lib.ip.make_class(args[0], list(args[1]), dict(lib.ip.dict_items(args[2])), None, 'dynamic')


@conv(object)
def _object(lib, args, kw):
    return IObj(OBJECT)


@conv(range)
def _range(lib, args, kw):
    if any(isinstance(a, SInt) for a in args):
        if len(args) == 1:
            n = args[0].t
            n = z3.If(n > 0, n, z3.IntVal(0))
            return SSeq(z3.simplify(n), lambda i: SInt(i), 'list', 'range')
        raise Unsupported('symbolic range')
    return lib.ip.host(lambda: range(*args))


@conv(slice)
def _slice(lib, args, kw):
    return slice(*args)


OBJECT = IClass('object', [object], {})


def _pack_unpack(lib, args, kw):
    raise Unsupported('struct on symbolic data')


# ---- classification of numbers: a symbolic float is finite (assumption A-REAL: results of arithmetic are finite too)
def _classify(g, on_finite):
    @conv(g)
    def d(lib, args, kw):
        v = args[0]
        if isinstance(v, (SReal, SInt, SBool)):
            return on_finite
        if deep_concrete(v):
            return lib.ip.host(lambda: g(v))
        raise Unsupported('%s of %s' % (g.__name__, type(v).__name__))


import math as _math  # noqa: E402
for _g, _r in ((_math.isinf, False), (_math.isnan, False), (_math.isfinite, True)):
    _classify(_g, _r)
