"""AST interpreter for the Python subset used by katcp, over concrete and symbolic values.

Functions are taken mechanically from /repo/katcp/*.py on every run (ast.parse);
nothing is dropped except docstrings, comments and logging calls' effects
(loggers are no-op stand-ins; their arguments are still evaluated).
"""
import ast
import builtins
import os
import sys
import z3
from .core import *          # noqa
from .core import lat
from . import strings as STR

sys.setrecursionlimit(12000)


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass




class IModule(object):
    def __init__(self, name, ns):
        self.name = name
        self.ns = ns

    def __repr__(self):
        return '<module %s>' % self.name


class IFunc(object):
    def __init__(self, node, env, module, qualname, defaults, kwdefaults, owner=None):
        self.node = node
        self.env = env
        self.module = module
        self.qualname = qualname
        self.name = getattr(node, 'name', '<lambda>')
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.owner = owner      # class for zero-arg super (unused in py2 style code)
        self.attrs = {}
        self.is_gen = is_generator(node)
        self.locals = local_names(node)

    def __repr__(self):
        return '<function %s>' % self.qualname


class IBound(object):
    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self)


class IClass(object):
    def __init__(self, name, bases, ns, meta=None, module=None):
        self.name = name
        self.bases = bases or [object]
        self.ns = ns
        self.meta = meta
        self.module = module
        self.mro = c3(self)
        self.qualname = (module + ':' if module else '') + name

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, IClass):
                if name in c.ns:
                    return c.ns[name], c
        return MISSING, None

    def host_base(self):
        for c in self.mro:
            if isinstance(c, type) and c is not object:
                return c
        return None

    def __repr__(self):
        return '<class %s>' % self.name


def c3(cls):
    def mro_of(b):
        if isinstance(b, IClass):
            return list(b.mro)
        if isinstance(b, type):
            return list(b.__mro__)
        return [b, object]
    seqs = [mro_of(b) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Unsupported('mro')
        out.append(h)
        seqs = [[x for x in s if x is not h] for s in seqs]
        seqs = [s for s in seqs if s]
    return out


class IObj(object):
    _n = 0

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.payload = None     # host value for tuple / dict / exception subclasses
        self.self_dict = False  # its attributes are its items (AttrDict)
        IObj._n += 1
        self.serial = IObj._n

    def __repr__(self):
        return '<%s object #%d>' % (self.cls.name, self.serial)


class Opaque(object):
    """A library object the engine knows only by name."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return '<lib %s>' % self.path

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class IPartial(object):
    def __init__(self, func, args, kw):
        self.func = func
        self.args = args
        self.kw = kw
        self.attrs = {}


class Prop(object):
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class ClsM(object):
    def __init__(self, f):
        self.f = f


class StatM(object):
    def __init__(self, f):
        self.f = f


class ISuper(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class MetaMarker(object):
    def __init__(self, meta, bases):
        self.meta = meta
        self.bases = bases


class IDict(object):
    """dict with engine-decided key equality.

    ``rest``: None, or an object with ``materialise(interp, key) -> value`` and
    ``absent(interp, key)``; models the unknown remainder of an arbitrary dict.
    """

    def __init__(self, items=(), default_factory=None):
        self.items = [list(i) for i in items]
        self.rest = None
        self.default_factory = default_factory
        self.excluded = []       # keys known absent from rest
        self.frozen = False
        self.many = None         # callable(ip) -> (key, value): an arbitrary further item (allows iteration over the unknown rest)
        self.size = None
        self.version = 0         # counts changes of the key set
        self.picked = None       # the item an iteration is about

    def find(self, ip, key):
        for it in self.items:
            if ip.truth(ip.eq(it[0], key)):
                return it
        if self.rest is not None:
            for k in self.excluded:
                if ip.truth(ip.eq(k, key)):
                    return None
            if ip.cx.choose(2, None) == 0:
                it = [key, self.rest(ip, key)]
                self.items.append(it)
                return it
            self.excluded.append(key)
        return None

    def set(self, ip, key, value):
        ip.mutating(self)
        it = self.find(ip, key)
        if it is not None:
            it[1] = value
        else:
            self.items.append([key, value])
            self.resized(1)

    def delete(self, ip, key):
        ip.mutating(self)
        it = self.find(ip, key)
        if it is None:
            return False
        self.items = [i for i in self.items if i is not it]
        self.resized(-1)
        if self.rest is not None:
            self.excluded.append(key)
        return True

    def resized(self, by):
        self.version += 1
        if self.size is not None:
            self.size = self.size + by

    def need_concrete(self):
        if self.rest is not None:
            raise Unsupported('iteration over an unknown dict')

    def __repr__(self):
        return '<IDict %d>' % len(self.items)


class ISet(object):
    def __init__(self, elems=(), frozen=False):
        self.elems = list(elems)
        self.rest = None         # callable(ip, x) -> None: assume facts about an unknown member
        self.excluded = []
        self.is_frozenset = frozen
        self.frozen = False
        self.many = None         # callable(ip) -> an arbitrary further member (allows iteration over the unknown rest)
        self.size = None
        self.version = 0

    resized = IDict.resized

    def has(self, ip, x):
        for e in self.elems:
            if ip.truth(ip.eq(e, x)):
                return True
        if self.rest is not None:
            for e in self.excluded:
                if ip.truth(ip.eq(e, x)):
                    return False
            if ip.cx.choose(2, None) == 0:
                self.rest(ip, x)
                self.elems.append(x)
                return True
            self.excluded.append(x)
        return False

    def add(self, ip, x):
        ip.mutating(self)
        if not self.has(ip, x):
            self.elems.append(x)
            self.resized(1)

    def remove(self, ip, x):
        ip.mutating(self)
        for i, e in enumerate(self.elems):
            if ip.truth(ip.eq(e, x)):
                del self.elems[i]
                self.resized(-1)
                if self.rest is not None:
                    self.excluded.append(x)
                return True
        if self.rest is not None and self.has(ip, x):
            self.elems = [e for e in self.elems if e is not x]
            self.resized(-1)
            self.excluded.append(x)
            return True
        return False

    def __repr__(self):
        return '<ISet %r>' % self.elems


CHARIN = z3.Function('charin', z3.StringSort(), z3.StringSort(), z3.BoolSort())


def charin(cx, root, xt):
    """x is one of the characters of root (abstracted; only the empty case is axiomatised)."""
    cx.axiom('the empty string has no characters', z3.Implies(root == zs(''), z3.Not(CHARIN(root, xt))))
    return z3.And(z3.Length(xt) == 1, CHARIN(root, xt))


class CharSet(ISet):
    """The set of one-character substrings of an SMT string (exact)."""

    def __init__(self, t, cls, root=None):
        ISet.__init__(self)
        self.t = t
        self.cls = cls
        self.root = t if root is None else root   # string with the same characters
        self.rest = True             # refuses enumeration

    def has(self, ip, x):
        return ip.cx.branch(self.has_term(ip, x))

    def has_term(self, ip, x):
        if not isinstance(x, (self.cls, bytes if self.cls is SBytes else str)):
            return False
        return ip.cx.zb(charin(ip.cx, self.root, zs(x) if not isinstance(x, Sym) else x.t))

    def add(self, ip, x):
        raise Unsupported('add to a character set')

    def remove(self, ip, x):
        raise Unsupported('remove from a character set')

    def __repr__(self):
        return '<CharSet %s>' % self.t


from .coro import Coro, Killed            # noqa


class IFuture(NObj):
    """Model of tornado/concurrent Future (tornado 4.5: callbacks run at resolution)."""
    clsname = 'Future'

    def __init__(self):
        self.state = 'pending'
        self.value = None
        self.cbs = []
        self.sets = 0

    def m_set_result(self, ip, v):
        self._finish(ip, 'result', v)

    def m_set_exception(self, ip, e):
        self._finish(ip, 'exc', e)

    def m_set_exc_info(self, ip, ei):
        self._finish(ip, 'exc', ip.items_of(ei)[1])

    def _finish(self, ip, st, v):
        self.sets += 1
        self.state = st
        self.value = v
        cbs, i = self.cbs, 0
        if cbs is None:
            raise PyExc(TypeError("'NoneType' object is not iterable"))      # a future that is resolved already
        while i < len(cbs):          # (4.5: iterates over the live list)
            cb = cbs[i]
            i += 1
            try:
                ip.call(cb, [self])
            except PyExc:
                pass             # tornado logs exceptions raised by callbacks
        self.cbs = None

    @property
    def a__callbacks(self):
        return self.cbs if self.state == 'pending' or self.cbs else None

    def m_add_done_callback(self, ip, cb):
        if self.state == 'pending':
            self.cbs.append(cb)
        else:
            ip.call(cb, [self])

    def m_done(self, ip):
        return self.state != 'pending'

    def m_running(self, ip):
        return self.state == 'pending'

    def m_cancelled(self, ip):
        return False

    def m_result(self, ip, timeout=None):
        if self.state == 'pending' and ip.cx.ghost.get('block') is not None:
            ip.cx.ghost['block'](ip, self, timeout)
            if self.state == 'pending':
                raise PyExc(ip.call(ip.lib.import_module('concurrent.futures').ns['TimeoutError'], []))
        if self.state == 'pending':
            raise Unsupported('result() of a pending future')
        if self.state == 'exc':
            raise PyExc(self.value)
        return self.value

    def m_exception(self, ip, timeout=None):
        return self.value if self.state == 'exc' else None

    def m_exc_info(self, ip):
        if self.state == 'exc':
            return (ip.type_of(self.value), self.value, None)
        return None

    def m_set_running_or_notify_cancel(self, ip):
        return True


class Env(object):
    __slots__ = ('vars', 'parent', 'locals', 'glob', 'func', 'globals_decl', 'yields')

    def __init__(self, parent, locals_, glob, func=None):
        self.vars = {}
        self.parent = parent
        self.locals = locals_
        self.glob = glob
        self.func = func
        self.globals_decl = ()
        self.yields = None


_ln = {}


def local_names(node):
    hit = _ln.get(node)
    if hit is not None:
        return hit
    names = set()
    nonloc = set()
    a = node.args
    for x in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs):
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)

    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            names.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            nonloc.update(n.names)
        for c in ast.iter_child_nodes(n):
            walk(c)
    if isinstance(node, ast.Lambda):
        walk(node.body)
    else:
        for s in node.body:
            walk(s)
    _ln[node] = names - nonloc
    return _ln[node]


_ig = {}


def is_generator(node):
    if node in _ig:
        return _ig[node]
    found = [False]

    def walk(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            found[0] = True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            return
        for c in ast.iter_child_nodes(n):
            walk(c)
    if isinstance(node, ast.Lambda):
        walk(node.body)
    else:
        for s in node.body:
            walk(s)
    _ig[node] = found[0]
    return found[0]


class Interp(object):
    def __init__(self, repo='/repo'):
        from . import lib
        self.repo = repo
        self.modules = {}
        self.cx = None
        self.entered = {}
        self.exc_stack = []
        self.loading = 0
        self.depth = 0
        self.lib = lib.Lib(self)
        self.coro_await = None
        self.line = None
        self._disp_e = {}
        self._disp_s = {}

    def begin_path(self, cx):
        self.cx = cx
        self.exc_stack = []
        self.depth = 0
        self.coro_await = None
        self.lib.reset()

    # ------------------------------------------------------------ loading
    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path = os.path.join(self.repo, *name.split('.')) + '.py'
        if not os.path.exists(path):
            path = os.path.join(self.repo, *name.split('.'), '__init__.py')
            if not os.path.exists(path):
                raise Unsupported('no module ' + name)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, path)
        m = IModule(name, {'__name__': name, '__file__': path})
        self.modules[name] = m
        env = Env(None, None, m.ns)
        led = None
        if self.cx is None:
            led = Ledger('load')
            self.cx = Cx(led, [])
            self.cx.interp = self
        self.loading += 1
        try:
            for st in tree.body:
                self.ex(st, env)
        finally:
            self.loading -= 1
        return m

    def get(self, path):
        """'katcp.core:Message.copy' -> value."""
        mod, _, q = path.partition(':')
        m = self.load(mod)
        parts = q.split('.')
        if parts[0] not in m.ns:
            raise Unsupported('no %s in %s' % (parts[0], mod))
        v = m.ns[parts[0]]
        for p in parts[1:]:
            v = self.getattr(v, p)
        return v

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            self.ex(s, env)

    def ex(self, node, env):
        h = self._disp_s.get(type(node))
        if h is None:
            h = getattr(self, 'ex_' + type(node).__name__, None)
            if h is None:
                raise Unsupported('statement %s' % type(node).__name__)
            self._disp_s[type(node)] = h
        self.line = (env.glob['__name__'], node.lineno)
        return h(node, env)

    def ex_Expr(self, n, env):
        self.ev(n.value, env)

    def ex_Pass(self, n, env):
        pass

    def ex_Assign(self, n, env):
        v = self.ev(n.value, env)
        for t in n.targets:
            self.assign(t, v, env)

    def ex_AnnAssign(self, n, env):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, env), env)

    def ex_AugAssign(self, n, env):
        if isinstance(n.target, ast.Name):
            cur = self.load_name(n.target.id, env)
        elif isinstance(n.target, ast.Attribute):
            o = self.ev(n.target.value, env)
            cur = self.getattr(o, n.target.attr)
        else:
            o = self.ev(n.target.value, env)
            k = self.ev(n.target.slice, env)
            cur = self.getitem(o, k)
        rhs = self.ev(n.value, env)
        if isinstance(cur, list) and isinstance(n.op, ast.Add):
            cur.extend(self.items_of(rhs))
            v = cur
        elif isinstance(cur, ISet) and isinstance(n.op, (ast.BitOr, ast.Sub, ast.BitAnd)) \
                and not cur.is_frozenset:
            if isinstance(n.op, ast.BitOr):
                for x in self.items_of(rhs):
                    cur.add(self, x)
            elif isinstance(n.op, ast.Sub):
                for x in self.items_of(rhs):
                    cur.remove(self, x)
            else:
                cur.elems = self.binop(n.op, cur, rhs).elems
            v = cur
        else:
            v = self.binop(n.op, cur, rhs)
        if isinstance(n.target, ast.Name):
            self.store_name(n.target.id, v, env)
        elif isinstance(n.target, ast.Attribute):
            self.setattr(o, n.target.attr, v)
        else:
            self.setitem(o, k, v)

    def ex_Return(self, n, env):
        raise ReturnSig(self.ev(n.value, env) if n.value is not None else None)

    def ex_If(self, n, env):
        if self.truth(self.ev(n.test, env)):
            self.block(n.body, env)
        else:
            self.block(n.orelse, env)

    def ex_While(self, n, env):
        rule = self.cx.loops.get('while')
        if rule is not None and rule(self, n, env):
            return
        count = 0
        while self.truth(self.ev(n.test, env)):
            count += 1
            if count > 400:
                raise Unsupported('while loop exceeds unrolling limit (line %d)' % n.lineno)
            try:
                self.block(n.body, env)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.block(n.orelse, env)

    def ex_For(self, n, env):
        it = self.ev(n.iter, env)
        it = as_many(self, it) or it
        rule = getattr(it, 'loop_rule', None)
        if rule is not None:
            return rule(self, n, env, it)
        if isinstance(it, LazyIter):
            gen = it.iterate(self)
        else:
            gen = list(self.items_of(it)) if not isinstance(it, list) else ListIter(it)
        for x in gen:
            self.assign(n.target, x, env)
            try:
                self.block(n.body, env)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.block(n.orelse, env)

    def ex_Break(self, n, env):
        raise BreakSig()

    def ex_Continue(self, n, env):
        raise ContinueSig()

    def ex_Raise(self, n, env):
        if n.exc is None:
            if not self.exc_stack:
                raise PyExc(RuntimeError('No active exception to reraise'))
            raise PyExc(self.exc_stack[-1])
        v = self.ev(n.exc, env)
        if isinstance(v, IClass) or isinstance(v, type):
            v = self.call(v, [])
        if isinstance(v, Opaque):
            raise Unsupported('raise %r' % v)
        raise PyExc(v)

    def ex_Try(self, n, env):
        try:
            try:
                self.block(n.body, env)
            except PyExc as e:
                for h in n.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ok = self.exc_match(e.value, self.ev(h.type, env))
                    if ok:
                        if h.name:
                            self.store_name(h.name, e.value, env)
                        self.exc_stack.append(e.value)
                        try:
                            self.block(h.body, env)
                        finally:
                            self.exc_stack.pop()
                        break
                else:
                    raise
            else:
                self.block(n.orelse, env)
        finally:
            if n.finalbody:
                et = sys.exc_info()[0]
                if et is None or not issubclass(et, (PathEnd, Unsupported, Killed)):
                    self.block(n.finalbody, env)

    def ex_With(self, n, env):
        mgrs = []
        for it in n.items:
            m = self.ev(it.context_expr, env)
            v = self.call(self.getattr(m, '__enter__'), [])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            mgrs.append(m)
        try:
            self.block(n.body, env)
        except PyExc as e:
            for m in reversed(mgrs):
                r = self.call(self.getattr(m, '__exit__'), [self.type_of(e.value), e.value, None])
                if self.truth(r):
                    return
            raise
        except (ReturnSig, BreakSig, ContinueSig):
            for m in reversed(mgrs):
                self.call(self.getattr(m, '__exit__'), [None, None, None])
            raise
        else:
            for m in reversed(mgrs):
                self.call(self.getattr(m, '__exit__'), [None, None, None])

    def ex_Assert(self, n, env):
        if not self.truth(self.ev(n.test, env)):
            msg = [self.ev(n.msg, env)] if n.msg is not None else []
            raise PyExc(self.make_exc(AssertionError, msg))

    def ex_Delete(self, n, env):
        for t in n.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev_slice(t.slice, env)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, env), t.attr)
            else:
                raise Unsupported('del')

    def ex_Global(self, n, env):
        env.globals_decl = tuple(env.globals_decl) + tuple(n.names)

    def ex_Nonlocal(self, n, env):
        pass

    def ex_Import(self, n, env):
        for al in n.names:
            top = al.name.split('.')[0]
            if al.asname:
                self.store_name(al.asname, self.lib.import_module(al.name), env)
            else:
                self.lib.import_module(al.name)
                self.store_name(top, self.lib.import_module(top), env)

    def ex_ImportFrom(self, n, env):
        modname = n.module or ''
        if n.level:
            pkg = env.glob['__name__'].split('.')
            if not env.glob['__file__'].endswith('__init__.py'):
                pkg = pkg[:-1]
            if n.level > 1:
                pkg = pkg[:-(n.level - 1)]
            modname = '.'.join(pkg + ([modname] if modname else []))
        for al in n.names:
            if al.name == '*':
                raise Unsupported('import *')
            v = self.lib.import_from(modname, al.name)
            self.store_name(al.asname or al.name, v, env)

    def ex_FunctionDef(self, n, env):
        f = self.make_func(n, env)
        v = f
        for d in reversed(n.decorator_list):
            dec = self.ev(d, env)
            v = self.call(dec, [v])
        self.store_name(n.name, v, env)

    def qual_prefix(self, env):
        e = env
        if e.func is not None:
            if isinstance(e.func, str):
                return e.func
            return e.func.qualname + '.<locals>.'
        return e.glob['__name__'] + ':'

    def make_func(self, n, env):
        a = n.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.ev(d, env)
        fenv = env
        # class bodies are not enclosing scopes for functions
        while fenv is not None and isinstance(fenv.func, str):
            fenv = fenv.parent
        f = IFunc(n, fenv, env.glob['__name__'],
                  self.qual_prefix(env) + getattr(n, 'name', '<lambda>'), defaults, kwd)
        f.glob = env.glob
        if not isinstance(n, ast.Lambda):
            f.attrs['__doc__'] = ast.get_docstring(n, clean=False)
            f.attrs['__name__'] = n.name
        else:
            f.attrs['__doc__'] = None
            f.attrs['__name__'] = '<lambda>'
        f.attrs['__module__'] = env.glob['__name__']
        return f

    def ex_ClassDef(self, n, env):
        bases = [self.ev(b, env) for b in n.bases]
        meta = None
        for k in n.keywords:
            if k.arg == 'metaclass':
                meta = self.ev(k.value, env)
        if len(bases) == 1 and isinstance(bases[0], MetaMarker):
            meta, bases = bases[0].meta, list(bases[0].bases)
        cenv = Env(env, None, env.glob, self.qual_prefix(env) + n.name + '.')
        cenv.vars['__module__'] = env.glob['__name__']
        cenv.vars['__doc__'] = ast.get_docstring(n, clean=False)
        self.block(n.body, cenv)
        cls = self.make_class(n.name, bases, cenv.vars, meta, env.glob['__name__'])
        cls.qualname = self.qual_prefix(env) + n.name
        v = cls
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d, env), [v])
        self.store_name(n.name, v, env)

    def make_class(self, name, bases, ns, meta, module):
        if meta is None:
            for b in bases:
                if isinstance(b, IClass) and b.meta is not None:
                    meta = b.meta
        if not isinstance(meta, IClass):
            meta = None
        cls = IClass(name, bases, ns, meta, module)
        for v in ns.values():
            if isinstance(v, IFunc) and v.owner is None:
                v.owner = cls
        if isinstance(meta, IClass):
            init, _ = meta.lookup('__init__')
            if init is not MISSING:
                d = IDict([(k, v) for k, v in ns.items()])
                self.call(init, [cls, name, tuple(bases), d])
        return cls

    # ------------------------------------------------------------ names
    def store_name(self, name, v, env):
        if name in env.globals_decl:
            env.glob[name] = v
            return
        e = env
        if e.parent is None and e.func is None and e.locals is None:
            e.glob[name] = v
            return
        if e.locals is not None and name not in e.locals:
            # nonlocal
            p = e.parent
            while p is not None:
                if name in p.vars:
                    p.vars[name] = v
                    return
                p = p.parent
        e.vars[name] = v

    def load_name(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            if e.locals is not None and name in e.locals and name not in e.globals_decl:
                raise PyExc(UnboundLocalError(
                    "local variable '%s' referenced before assignment" % name))
            e = e.parent
        if name in env.glob:
            return env.glob[name]
        return self.lib.builtin(name)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.setitem(o, self.ev_slice(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if isinstance(v, (SSeq, SList)):
                seq = v.seq if isinstance(v, SList) else v
                if star:
                    raise Unsupported('starred unpack of unknown sequence')
                if not self.cx.branch(seq.length == len(t.elts)):
                    raise PyExc(ValueError('wrong number of values to unpack'))
                vals = [seq.at(self.cx, i) for i in range(len(t.elts))]
            else:
                vals = list(self.items_of(v))
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise PyExc(ValueError('not enough values to unpack'))
                vals = vals[:i] + [vals[i:len(vals) - after]] + vals[len(vals) - after:]
            if len(vals) != len(t.elts):
                raise PyExc(ValueError('not enough values to unpack (expected %d, got %d)'
                                       % (len(t.elts), len(vals))
                                       if len(vals) < len(t.elts) else
                                       'too many values to unpack (expected %d)' % len(t.elts)))
            for x, y in zip(t.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        else:
            raise Unsupported('assignment target')

    # ------------------------------------------------------------ expressions
    def ev(self, node, env):
        h = self._disp_e.get(type(node))
        if h is None:
            h = getattr(self, 'ev_' + type(node).__name__, None)
            if h is None:
                raise Unsupported('expression %s' % type(node).__name__)
            self._disp_e[type(node)] = h
        return h(node, env)

    def ev_Constant(self, n, env):
        return n.value

    def ev_Name(self, n, env):
        return self.load_name(n.id, env)

    def ev_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def ev_Tuple(self, n, env):
        return tuple(self.ev_elts(n.elts, env))

    def ev_List(self, n, env):
        return self.ev_elts(n.elts, env)

    def ev_elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.items_of(self.ev(e.value, env)))
            else:
                out.append(self.ev(e, env))
        return out

    def ev_Set(self, n, env):
        s = ISet()
        for e in n.elts:
            s.add(self, self.ev(e, env))
        return s

    def ev_Dict(self, n, env):
        d = IDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                for a, b in self.dict_items(self.ev(v, env)):
                    d.set(self, a, b)
            else:
                kk = self.ev(k, env)
                d.set(self, kk, self.ev(v, env))
        return d

    def ev_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.ev(e, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return v
            if not is_and and t:
                return v
        return v

    def ev_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, SInt):
                return SInt(-v.t)
            if isinstance(v, SReal):
                return SReal(-v.t)
            if isinstance(v, SBool):
                return SInt(z3.If(v.t, -1, 0))
            return self.host(lambda: -v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert) and not isinstance(v, Sym):
            return self.host(lambda: ~v)
        raise Unsupported('unary')

    def ev_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(n.op, a, b)

    def ev_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(c, env)
            res = self.compare(op, left, right)
            if i < len(n.ops) - 1:
                if not self.truth(res):
                    return res
            left = right
        return res

    def ev_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def ev_Lambda(self, n, env):
        return self.make_func(n, env)

    def ev_Subscript(self, n, env):
        o = self.ev(n.value, env)
        return self.getitem(o, self.ev_slice(n.slice, env))

    def ev_slice(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(self.ev(s.lower, env) if s.lower else None,
                         self.ev(s.upper, env) if s.upper else None,
                         self.ev(s.step, env) if s.step else None)
        return self.ev(s, env)

    def ev_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                if v.conversion == ord('r'):
                    parts.append(self.lib.repr_(x))
                elif v.format_spec is None:
                    parts.append(self.lib.str_(x))
                else:
                    parts.append(SStr(z3.String(self.cx.name('fmt'))))
        return STR.concat_str(self, parts)

    def ev_Call(self, n, env):
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                sv = self.ev(a.value, env)
                if isinstance(sv, SList):
                    sv = sv.seq
                if isinstance(sv, SSeq):
                    args.append(StarSeq(sv))
                else:
                    args.extend(self.items_of(sv))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                for a, b in self.dict_items(self.ev(k.value, env)):
                    kw[a] = b
            else:
                kw[k.arg] = self.ev(k.value, env)
        if f is SUPER and not args:
            args = [env_owner(env), env_self(env)]
        return self.call(f, args, kw)

    def _comp(self, gens, env, emit):
        g = gens[0]
        it = self.ev(g.iter, env)
        for x in (it.iterate(self) if isinstance(it, LazyIter) else self.items_of(it)):
            cenv = Env(env, None, env.glob, None)
            cenv.locals = None
            cenv.func = env.func
            self.bind_comp(g.target, x, cenv)
            if all(self.truth(self.ev(c, cenv)) for c in g.ifs):
                if len(gens) > 1:
                    self._comp(gens[1:], cenv, emit)
                else:
                    emit(cenv)

    def bind_comp(self, t, v, cenv):
        if isinstance(t, ast.Name):
            cenv.vars[t.id] = v
        else:
            vals = list(self.items_of(v))
            if len(vals) != len(t.elts):
                raise PyExc(ValueError('unpack'))
            for a, b in zip(t.elts, vals):
                self.bind_comp(a, b, cenv)

    def ev_ListComp(self, n, env):
        if len(n.generators) == 1:
            it = self.ev(n.generators[0].iter, env)
            m = as_many(self, it)
            if m is not None:
                return self.derive_many(m, n, env)
            if isinstance(it, SList):
                it = it.seq
            if isinstance(it, SSeq):
                if n.generators[0].ifs:
                    raise Unsupported('filtered comprehension over unknown sequence')
                return SList(self.map_seq(it, n, env))
            if not isinstance(it, (list, tuple)):
                it = list(it.iterate(self)) if isinstance(it, LazyIter) else list(self.items_of(it))
            out = []
            g = n.generators[0]
            for x in it:
                cenv = Env(env, None, env.glob, env.func)
                self.bind_comp(g.target, x, cenv)
                if all(self.truth(self.ev(c, cenv)) for c in g.ifs):
                    out.append(self.ev(n.elt, cenv))
            return out
        out = []
        self._comp(n.generators, env, lambda e: out.append(self.ev(n.elt, e)))
        return out

    def derive_many(self, m, n, env):
        g = n.generators[0]
        state = {}

        def test(x):
            state['env'] = cenv = Env(env, None, env.glob, env.func)
            self.bind_comp(g.target, x, cenv)
            return all(self.truth(self.ev(c, cenv)) for c in g.ifs)

        def image(x):
            if not g.ifs:
                test(x)
            return self.ev(n.elt, state['env'])
        return m.derive(self, image, test if g.ifs else None)

    def map_seq(self, seq, n, env):
        """Map rule: some element raises, or the result is the element-wise image."""
        def body(x):
            cenv = Env(env, None, env.glob, env.func)
            self.bind_comp(n.generators[0].target, x, cenv)
            return self.ev(n.elt, cenv)
        return self.map_rule(seq, body)

    def map_rule(self, seq, body, kind='list'):
        cx = self.cx
        if cx.choose(2, None) == 1:
            i = z3.Int(cx.name('mapidx'))
            cx.assume(z3.And(i >= 0, i < seq.length))
            w = self.writes_snapshot()
            body(seq.at(cx, i))          # raises PyExc, or
            self.writes_check(w)
            raise PathEnd()              # ... this choice does not apply

        def elem(idx):
            try:
                return body(seq.at(cx, idx))
            except PyExc:
                raise PathEnd()          # excluded by the choice above
        return SSeq(seq.length, elem, kind, 'map(%s)' % seq.name)

    def writes_snapshot(self):
        return None

    def writes_check(self, w):
        pass

    def ev_GeneratorExp(self, n, env):
        if len(n.generators) == 1:
            it = self.ev(n.generators[0].iter, env)
            m = as_many(self, it)
            if m is not None:
                return self.derive_many(m, n, env)
            if isinstance(it, (SSeq, SList)):
                return SeqGen(it.seq if isinstance(it, SList) else it, n, env)
            lst = it if isinstance(it, (list, tuple)) else None

            def gen():
                g = n.generators[0]
                src = lst if lst is not None else (
                    it.iterate(self) if isinstance(it, LazyIter) else self.items_of(it))
                for x in src:
                    cenv = Env(env, None, env.glob, env.func)
                    self.bind_comp(g.target, x, cenv)
                    if all(self.truth(self.ev(c, cenv)) for c in g.ifs):
                        yield self.ev(n.elt, cenv)
            return LazyIter(gen)
        return self.ev_ListComp(n, env)

    def ev_SetComp(self, n, env):
        s = ISet()
        self._comp(n.generators, env, lambda e: s.add(self, self.ev(n.elt, e)))
        return s

    def ev_DictComp(self, n, env):
        d = IDict()
        if len(n.generators) == 1:
            it = self.ev(n.generators[0].iter, env)
            m = as_many(self, it)
            if m is not None:
                pair = ast.copy_location(ast.ListComp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators), n)
                return dict_from(self.derive_many(m, pair, env))
        self._comp(n.generators, env,
                   lambda e: d.set(self, self.ev(n.key, e), self.ev(n.value, e)))
        return d

    def ev_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value is not None else None
        e = env
        while e is not None and e.yields is None:
            e = e.parent
        if e is None:
            raise Unsupported('yield outside coroutine')
        return e.yields(v)

    def ev_Starred(self, n, env):
        raise Unsupported('starred')

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        self.depth += 1
        if self.depth > 160:
            self.depth -= 1
            raise Unsupported('call depth')
        try:
            return self._call(f, args, kw)
        finally:
            self.depth -= 1

    def _call(self, f, args, kw):
        if isinstance(f, IFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, IBound):
            return self._call(f.func, [f.self] + args, kw)
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, IClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, IPartial):
            k = dict(f.kw)
            k.update(kw)
            return self._call(f.func, list(f.args) + args, k)
        if isinstance(f, NObj):
            m = f.get(self, '__call__')
            if m is MISSING:
                raise PyExc(TypeError('%s object is not callable' % f.clsname))
            return self._call(m, args, kw)
        if isinstance(f, IObj):
            m, _ = f.cls.lookup('__call__')
            if m is MISSING:
                raise PyExc(TypeError('%s object is not callable' % f.cls.name))
            return self._call(m, [f] + args, kw)
        if isinstance(f, (ClsM, StatM)):
            return self._call(f.f, args, kw)
        if isinstance(f, CoroFunc):
            return f.start(self, args, kw)
        if isinstance(f, Opaque):
            return self.lib.call_opaque(f, args, kw)
        if isinstance(f, (Sym, IDict, ISet, list, tuple, SSeq, SList)) or f is None \
                or isinstance(f, (str, bytes, int, float)):
            raise PyExc(TypeError('object is not callable'))
        if isinstance(f, SOpaque):
            raise Unsupported('call of %r' % f)
        return self.lib.call_host(f, args, kw)

    def call_func(self, f, args, kw):
        stub = self.cx.stubs.get(f.qualname) if self.cx is not None else None
        if stub is not None:
            self.cx.ledger.stubs[f.qualname] = self.cx.ledger.stubs.get(f.qualname, 0) + 1
            return stub(self, args, kw)
        if not self.loading:
            self.entered[f.qualname] = self.entered.get(f.qualname, 0) + 1
        env = Env(f.env, f.locals, f.glob, f)
        self.bind_args(f, args, kw, env)
        if f.is_gen:
            return IGen(self, f, env)
        return self.run_body(f, env)

    def run_body(self, f, env):
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env)
        try:
            self.block(f.node.body, env)
        except ReturnSig as r:
            return r.v
        return None

    def bind_args(self, f, args, kw, env):
        a = f.node.args
        pos = [x.arg for x in list(a.posonlyargs) + list(a.args)]
        kw = dict(kw)
        vals = env.vars
        fname = f.name
        star = [i for i, x in enumerate(args) if isinstance(x, StarSeq)]
        if star:
            # f(a, b, *unknown): only supported when unknown lands in *args, or is forced finite
            i = star[0]
            if i == len(args) - 1 and a.vararg and i >= len(pos):
                seq = args[i].seq
                if i > len(pos):
                    seq = seq_prepend(self, args[len(pos):i], seq)
                for p, v in zip(pos, args):
                    vals[p] = v
                vals[a.vararg.arg] = seq
                args = None
            else:
                raise Unsupported('call %s with unknown *args' % f.qualname)
        if args is not None:
            if len(args) > len(pos):
                if not a.vararg:
                    raise PyExc(TypeError('%s() takes %d positional arguments but %d were given'
                                          % (fname, len(pos), len(args))))
                vals[a.vararg.arg] = tuple(args[len(pos):])
            elif a.vararg:
                vals[a.vararg.arg] = ()
            for p, v in zip(pos, args):
                vals[p] = v
        for p in pos:
            if p in kw:
                if p in vals:
                    raise PyExc(TypeError("%s() got multiple values for argument '%s'" % (fname, p)))
                vals[p] = kw.pop(p)
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in vals:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vals[p] = f.defaults[j]
                else:
                    raise PyExc(TypeError("%s() missing 1 required positional argument: '%s'"
                                          % (fname, p)))
        for k in a.kwonlyargs:
            if k.arg in kw:
                vals[k.arg] = kw.pop(k.arg)
            elif k.arg in f.kwdefaults:
                vals[k.arg] = f.kwdefaults[k.arg]
            else:
                raise PyExc(TypeError('%s() missing keyword-only argument' % fname))
        if a.kwarg:
            vals[a.kwarg.arg] = IDict([(k, v) for k, v in kw.items()])
        elif kw:
            raise PyExc(TypeError("%s() got an unexpected keyword argument '%s'"
                                  % (fname, list(kw)[0])))

    def instantiate(self, cls, args, kw):
        stub = self.cx.stubs.get(cls.qualname)
        if stub is not None:
            return stub(self, args, kw)
        new, _ = cls.lookup('__new__')
        if new is not MISSING:
            f = new.f if isinstance(new, StatM) else new
            obj = self.call(f, [cls] + args, kw)
        else:
            obj = IObj(cls)
        init, owner = cls.lookup('__init__')
        hb = cls.host_base()
        if hb is not None and issubclass(hb, BaseException):
            obj.payload = tuple(args)
        if hb is dict:
            obj.payload = IDict()
        if hb is tuple and obj.payload is None:
            obj.payload = tuple(self.items_of(args[0])) if args else ()
        if hb is list and obj.payload is None:
            obj.payload = list(self.items_of(args[0])) if args else []
        if init is not MISSING:
            self.call(init, [obj] + args, kw)
        else:
            if hb is dict:
                self.lib.dict_update(obj.payload, args, kw)
            elif (args or kw) and new is MISSING and \
                    (hb is None or not issubclass(hb, (BaseException, tuple, list))):
                if all(c is object or isinstance(c, IClass) for c in cls.mro):
                    raise PyExc(TypeError('%s() takes no arguments' % cls.name))
        return obj

    def make_exc(self, cls, args):
        if isinstance(cls, IClass):
            return self.instantiate(cls, list(args), {})
        return cls(*[a if not isinstance(a, (Sym,)) else '<sym>' for a in args])

    # ------------------------------------------------------------ classes & attributes
    def type_of(self, v):
        if isinstance(v, IObj):
            return v.cls
        if isinstance(v, Sym):
            return getattr(builtins, v.pyname)
        if isinstance(v, IDict):
            return dict
        if isinstance(v, Many):
            return list
        if isinstance(v, ISet):
            return frozenset if v.is_frozenset else set
        if isinstance(v, (SSeq, SList)):
            return list if isinstance(v, SList) or v.kind == 'list' else tuple
        if isinstance(v, NObj):
            return getattr(v, 'cls', None) or Opaque(v.clsname)
        if isinstance(v, IClass):
            return v.meta or type
        if isinstance(v, (IFunc, IBound, Native)):
            return FUNC_TYPE
        if isinstance(v, (SOpaque, Opaque)):
            raise Unsupported('type of %r' % v)
        return type(v)

    def isinstance_(self, v, cls):
        if isinstance(cls, tuple):
            return any(self.isinstance_(v, c) for c in cls)
        if isinstance(cls, IClass):
            if isinstance(v, IObj):
                return cls in v.cls.mro
            if isinstance(v, NObj):
                return cls in getattr(v, 'isa', ())
            if isinstance(v, IClass):
                return v.meta is not None and cls in v.meta.mro
            if isinstance(v, SOpaque):
                k = v.kind
                if isinstance(k, IClass):
                    return cls in k.mro
                if k == 'notkatcp':
                    return False
                raise Unsupported('isinstance of %r' % v)
            return False
        if isinstance(cls, ABCMark):
            return cls.test(self, v)
        if isinstance(cls, type):
            if isinstance(v, IObj):
                return cls in v.cls.mro or cls is object
            if isinstance(v, SOpaque):
                if cls is object:
                    return True
                if v.kind is not None:
                    if isinstance(v.kind, IClass):
                        return cls in v.kind.mro
                    return False
                raise Unsupported('isinstance of %r' % v)
            if cls is object:
                return True
            t = self.type_of(v)
            if isinstance(t, type):
                return issubclass(t, cls)
            return False
        if isinstance(cls, Opaque):
            if isinstance(v, IObj):
                return cls in v.cls.mro
            if isinstance(v, NObj):
                return cls.path in getattr(v, 'opaque_isa', ()) or cls.path.split('.')[-1] == v.clsname
            return False
        if isinstance(cls, Native):
            t = NATIVE_TYPES.get(cls.name)
            if t is not None:
                return t(self, v)
        raise Unsupported('isinstance(.., %r)' % (cls,))

    def exc_match(self, v, cls):
        if isinstance(cls, tuple):
            return any(self.exc_match(v, c) for c in cls)
        if isinstance(v, BaseException):
            if isinstance(cls, type):
                return isinstance(v, cls)
            return False
        return self.isinstance_(v, cls)

    def getattr(self, o, name, default=MISSING):
        v = self._getattr(o, name)
        if v is MISSING:
            if default is not MISSING:
                return default
            raise PyExc(AttributeError("%s object has no attribute '%s'"
                                       % (self.show(o), name)))
        return v

    def bind(self, v, obj, cls):
        if isinstance(v, (IFunc, Native, CoroFunc)):
            if getattr(v, 'nobind', False):
                return v
            if isinstance(v, CoroFunc):
                return IBound(v, obj)
            return IBound(v, obj)
        if isinstance(v, Prop):
            return self.call(v.fget, [obj])
        if isinstance(v, ClsM):
            return IBound(v.f, cls)
        if isinstance(v, StatM):
            return v.f
        return v

    def _getattr(self, o, name):
        if isinstance(o, IObj):
            cv, _ = o.cls.lookup(name)
            if isinstance(cv, Prop):
                return self.call(cv.fget, [o])
            if name in o.attrs:
                return o.attrs[name]
            if o.self_dict:
                it = o.payload.find(self, name)
                if it is not None:
                    return it[1]
            if cv is not MISSING:
                return self.bind(cv, o, o.cls)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return AttrView(o)
            if o.payload is not None:
                r = self.lib.payload_attr(o, name)
                if r is not MISSING:
                    return r
            ga, _ = o.cls.lookup('__getattr__')
            if ga is not MISSING:
                return self.call(ga, [o, name])
            if name == '__doc__':
                return o.cls.ns.get('__doc__')
            r = self.lib.object_attr(o, name)
            if r is not MISSING:
                return r
            return MISSING
        if isinstance(o, IClass):
            cv, owner = o.lookup(name)
            if cv is MISSING and o.meta is not None:
                mv, _ = o.meta.lookup(name)
                if mv is not MISSING:
                    return self.bind(mv, o, o.meta)
            if cv is MISSING:
                if name == '__name__':
                    return o.name
                if name == '__class__':
                    return o.meta or type
                if name == '__mro__':
                    return tuple(o.mro)
                if name == '__bases__':
                    return tuple(o.bases)
                if name == '__dict__':
                    return IDict([(k, v) for k, v in o.ns.items()])
                return self.lib.class_attr(o, name)
            if isinstance(cv, ClsM):
                return IBound(cv.f, o)
            if isinstance(cv, StatM):
                return cv.f
            return cv
        if isinstance(o, NObj):
            return o.get(self, name)
        if isinstance(o, IModule):
            if name in o.ns:
                return o.ns[name]
            return self.lib.submodule(o, name)
        if isinstance(o, ISuper):
            start = self.type_of(o.obj) if not isinstance(o.obj, IClass) else o.obj
            mro = start.mro
            if o.cls not in mro:
                start = o.obj.meta if isinstance(o.obj, IClass) and o.obj.meta else start
                mro = start.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, IClass) and name in c.ns:
                    cv = c.ns[name]
                    if isinstance(cv, ClsM):
                        return IBound(cv.f, start)
                    return self.bind(cv, o.obj, start)
            return self.lib.super_host(o, name, mro[i + 1:])
        if isinstance(o, IFunc):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__dict__':
                return IDict([(k, v) for k, v in o.attrs.items() if not k.startswith('__')])
            if name == '__get__':
                return Native(lambda ip, a, k: IBound(o, a[0]), 'get')
            return MISSING
        if isinstance(o, CoroFunc):
            return self._getattr(o.func, name)
        if isinstance(o, IBound):
            if name in ('__self__', 'im_self'):
                return o.self
            if name in ('__func__', 'im_func'):
                return o.func
            return self._getattr(o.func, name)
        if isinstance(o, IPartial):
            if name in o.attrs:
                return o.attrs[name]
            return {'func': o.func, 'args': tuple(o.args)}.get(name, MISSING)
        if isinstance(o, Prop):
            if name == 'setter':
                return Native(lambda ip, a, k: Prop(o.fget, a[0]), 'setter')
            if name == 'fget':
                return o.fget
            return MISSING
        if isinstance(o, IGen):
            return o.attr(self, name)
        if isinstance(o, Opaque):
            return self.lib.opaque_attr(o, name)
        if isinstance(o, SOpaque):
            raise Unsupported('attribute %s of %r' % (name, o))
        if isinstance(o, (ClsM, StatM)):
            return self._getattr(o.f, name)
        return self.lib.value_attr(o, name)

    def setattr(self, o, name, v):
        if isinstance(o, IObj):
            cv, _ = o.cls.lookup(name)
            if isinstance(cv, Prop):
                if cv.fset is None:
                    raise PyExc(AttributeError("can't set attribute"))
                self.call(cv.fset, [o, v])
                return
            sa, _ = o.cls.lookup('__setattr__')
            if sa is not MISSING:
                self.call(sa, [o, name, v])
                return
            hook = self.cx.ghost.get('setattr_hook') if self.cx is not None else None
            if hook is not None:
                hook(self, o, name, v)
            if name == '__dict__':
                if v is not o or not isinstance(o.payload, IDict) or o.attrs:
                    raise Unsupported('replacement of __dict__')
                o.self_dict = True
                return
            if o.self_dict:
                o.payload.set(self, name, v)
                return
            o.attrs[name] = v
        elif isinstance(o, NObj):
            o.set(self, name, v)
        elif isinstance(o, (IFunc, IPartial)):
            o.attrs[name] = v
        elif isinstance(o, CoroFunc):
            self.setattr(o.func, name, v)
        elif isinstance(o, IBound):
            raise PyExc(AttributeError("'method' object has no attribute '%s'" % name))
        elif isinstance(o, IClass):
            if not self.loading and o.module != 'ghost' and not self.cx.ghost.get('allow_class_write'):
                raise Unsupported('write to class attribute %s.%s' % (o.name, name))
            o.ns[name] = v
        elif isinstance(o, IModule):
            o.ns[name] = v
        elif isinstance(o, Native):
            pass
        else:
            raise PyExc(AttributeError('cannot set %s on %s' % (name, self.show(o))))

    def delattr(self, o, name):
        if isinstance(o, IObj) and name in o.attrs:
            del o.attrs[name]
        else:
            raise PyExc(AttributeError(name))

    def mutating(self, c):
        if c.frozen and not self.loading:
            raise Unsupported('write to a module-level container')

    # ------------------------------------------------------------ containers
    def items_of(self, v):
        """Finite host list of the elements (or Unsupported)."""
        if isinstance(v, Many):
            raise Unsupported('enumeration of %r' % v)
        if isinstance(v, (list, tuple)):
            return v
        if isinstance(v, IDict):
            v.need_concrete()
            return [k for k, _ in v.items]
        if isinstance(v, ISet):
            if v.rest is not None:
                raise Unsupported('iteration over an unknown set')
            return list(v.elems)
        if isinstance(v, LazyIter):
            return list(v.iterate(self))
        if isinstance(v, (range, ListIter)):
            return list(v)
        if isinstance(v, bytes):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, IObj):
            if isinstance(v.payload, (tuple, list)):
                return v.payload
            if isinstance(v.payload, IDict):
                return self.items_of(v.payload)
            it, _ = v.cls.lookup('__iter__')
            if it is not MISSING:
                return self.items_of(self.call(it, [v]))
        if isinstance(v, IGen):
            return v.all(self)
        if isinstance(v, NObj):
            m = v.get(self, '__iter__')
            if m is not MISSING:
                return self.items_of(self.call(m, []))
        if isinstance(v, (frozenset, set)):
            return list(v)
        if isinstance(v, AttrView):
            return list(v.obj.attrs)
        if isinstance(v, (SSeq, SList)):
            seq = v.seq if isinstance(v, SList) else v
            lim = self.cx.ghost.get('unroll', None)
            ln = z3.simplify(seq.length) if z3.is_expr(seq.length) else z3.IntVal(seq.length)
            if z3.is_int_value(ln):
                return [seq.at(self.cx, i) for i in range(ln.as_long())]
            if lim is not None:
                for k in range(lim + 1):
                    if self.cx.branch(seq.length == k):
                        return [seq.at(self.cx, i) for i in range(k)]
                self.cx.notes.append('bounded: sequence length <= %d' % lim)
                self.cx.ledger.covers['BOUNDED unroll %d' % lim] = 1
                raise PathEnd()
            raise Unsupported('iteration over unknown sequence %s' % seq.name)
        if v is None or isinstance(v, (int, float, SInt, SBool, SReal)):
            raise PyExc(TypeError('%s object is not iterable' % self.show(v)))
        if hasattr(v, '__iter__') and not isinstance(v, (Sym, SOpaque, Opaque)):
            return list(v)
        raise Unsupported('iterate %r' % (v,))

    def dict_items(self, v):
        if isinstance(v, IObj) and isinstance(v.payload, IDict):
            v = v.payload
        if isinstance(v, IDict):
            v.need_concrete()
            return [(k, x) for k, x in v.items]
        if isinstance(v, dict):
            return list(v.items())
        if isinstance(v, AttrView):
            return list(v.obj.attrs.items())
        raise Unsupported('dict items of %r' % (v,))

    def getitem(self, o, k):
        return self.lib.getitem(o, k)

    def setitem(self, o, k, v):
        return self.lib.setitem(o, k, v)

    def delitem(self, o, k):
        return self.lib.delitem(o, k)

    # ------------------------------------------------------------ truth, equality, ops
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, SBool):
            return self.cx.branch(v.t)
        if isinstance(v, z3.BoolRef):
            return self.cx.branch(v)
        if isinstance(v, SInt):
            return self.cx.branch(v.t != 0)
        if isinstance(v, SReal):
            return self.cx.branch(v.t != 0)
        if isinstance(v, (SBytes, SStr)):
            return self.cx.branch(v.t != zs(''))
        if isinstance(v, Many):
            return self.cx.branch(v.size > 0)
        if isinstance(v, SSeq):
            return self.cx.branch(v.length > 0)
        if isinstance(v, SList):
            return self.cx.branch(v.seq.length > 0)
        if isinstance(v, (list, tuple, str, bytes, int, float)):
            return bool(v)
        if isinstance(v, IDict):
            if v.items:
                return True
            if v.rest is not None and v.many is not None:
                return self.cx.branch(as_many(self, v).size > 0)
            if v.rest is not None:
                raise Unsupported('truth of unknown dict')
            return False
        if isinstance(v, CharSet):
            return self.cx.branch(v.t != zs(''))
        if isinstance(v, ISet):
            if v.elems:
                return True
            if v.rest is not None and v.many is not None:
                return self.cx.branch(as_many(self, v).size > 0)
            if v.rest is not None:
                raise Unsupported('truth of unknown set')
            return False
        if isinstance(v, IObj):
            for m in ('__bool__', '__nonzero__', '__len__'):
                f, _ = v.cls.lookup(m)
                if f is not MISSING:
                    return self.truth(self.call(f, [v]))
            if isinstance(v.payload, (tuple, list, IDict)) and not self.isinstance_(v, BaseException):
                return self.truth(v.payload)
            return True
        if isinstance(v, NObj):
            m = v.get(self, '__bool__')
            if m is not MISSING:
                return self.truth(self.call(m, []))
            return True
        if isinstance(v, SOpaque):
            if v.kind == 'truthy' or isinstance(v.kind, IClass):
                return True
            return self.cx.branch(z3.Bool('truth:' + v.name))
        if isinstance(v, (Opaque, IFunc, IBound, IClass, Native, IModule, IPartial, CoroFunc, LazyIter,
                          IGen)):
            return True
        return bool(v)

    def eq(self, a, b):
        """host bool or z3 Bool."""
        if a is b and not (isinstance(a, float) and a != a):
            return True
        sa, sb = isinstance(a, Sym), isinstance(b, Sym)
        if sa or sb:
            return self.sym_eq(a, b)
        if isinstance(a, IObj):
            f, _ = a.cls.lookup('__eq__')
            if f is not MISSING:
                r = self.call(f, [a, b])
                if r is not NotImplemented:
                    return self.cx.zb(r) if not isinstance(r, bool) else r
                if isinstance(b, IObj):
                    g, _ = b.cls.lookup('__eq__')
                    if g is not MISSING:
                        r = self.call(g, [b, a])
                        if r is not NotImplemented:
                            return r
                return False
        if isinstance(b, IObj):
            f, _ = b.cls.lookup('__eq__')
            if f is not MISSING and not isinstance(a, IObj):
                return self.eq(b, a)
        pa = a.payload if isinstance(a, IObj) and a.payload is not None else a
        pb = b.payload if isinstance(b, IObj) and b.payload is not None else b
        if isinstance(pa, (SList, SSeq)) or isinstance(pb, (SList, SSeq)):
            return self.seq_eq(pa, pb)
        if isinstance(pa, (list, tuple)) and isinstance(pb, (list, tuple)):
            if isinstance(pa, list) != isinstance(pb, list):
                return False
            if isinstance(a, IObj) and self.isinstance_(a, BaseException):
                return a is b
            if len(pa) != len(pb):
                return False
            out = True
            for x, y in zip(pa, pb):
                out = zand(out, self.eq(x, y))
                if out is False:
                    return False
            return out
        if isinstance(pa, ISet) and isinstance(pb, ISet) and (isinstance(pa, CharSet) or isinstance(pb, CharSet)):
            if True:
                c = self.cx.ghost.get('charset_eq')
                if c is not None:
                    return c(self, pa, pb)
            raise Unsupported('equality of character sets')
        if isinstance(pa, ISet) and isinstance(pb, ISet):
            if pa.rest or pb.rest:
                raise Unsupported('equality of unknown sets')
            if len(pa.elems) != len(pb.elems):
                return False
            return all(pb.has(self, x) for x in pa.elems)
        if isinstance(pa, IDict) and isinstance(pb, IDict):
            pa.need_concrete()
            pb.need_concrete()
            if len(pa.items) != len(pb.items):
                return False
            out = True
            for k, v in pa.items:
                it = pb.find(self, k)
                if it is None:
                    return False
                out = zand(out, self.eq(v, it[1]))
            return out
        if isinstance(a, SOpaque) or isinstance(b, SOpaque):
            if isinstance(a, SOpaque) and isinstance(b, SOpaque):
                return False        # distinct identities (assumption A-OPAQUE)
            return False
        if isinstance(a, (IObj, IClass, IFunc, NObj, Native, IModule, IDict, ISet, CoroFunc)) or \
                isinstance(b, (IObj, IClass, IFunc, NObj, Native, IModule, IDict, ISet, CoroFunc)):
            return False
        if isinstance(a, IBound) and isinstance(b, IBound):
            return a.self is b.self and (a.func is b.func or (
                isinstance(a.func, Native) and isinstance(b.func, Native) and a.func.name == b.func.name))
        if isinstance(a, (IBound, IPartial)) or isinstance(b, (IBound, IPartial)):
            return False
        try:
            return bool(a == b)
        except Exception:
            raise Unsupported('eq')

    def seq_eq(self, a, b):
        """Equality of (possibly unknown-length) sequences as a z3 formula.

        Uses a fresh *skolem* index, so it is only valid in positive position of a
        proof goal (cx.prove); branching on it is refused."""
        raise Unsupported('branching equality of unknown sequences')

    def sym_eq(self, a, b):
        if isinstance(a, (SBytes, SStr)) and type(a) is type(b) and a.info and b.info and a.info[0] == b.info[0] == 'int':
            self.cx.ledger.axioms['decimal forms of integers are equal iff the integers are'] = \
                self.cx.ledger.axioms.get('decimal forms of integers are equal iff the integers are', 0) + 1
            return self.cx.zb(a.info[1] == b.info[1])
        num = (SInt, SBool, SReal, int, float)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, float) and (a != a or a in (float('inf'), -float('inf'))):
                return False
            if isinstance(b, float) and (b != b or b in (float('inf'), -float('inf'))):
                return False
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                return self.cx.zb(self.zbool(a) == self.zbool(b))
            x, y = self.num_pair(a, b)
            return self.cx.zb(x == y)
        if isinstance(a, (SBytes, bytes)) and isinstance(b, (SBytes, bytes)):
            return self.cx.zb(self.zstr(a) == self.zstr(b))
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            return self.cx.zb(self.zstr(a) == self.zstr(b))
        if isinstance(a, SOpaque) or isinstance(b, SOpaque):
            return False
        if isinstance(b, IObj):
            f, _ = b.cls.lookup('__eq__')
            if f is not MISSING:
                r = self.call(f, [b, a])
                return False if r is NotImplemented else r
        return False

    def zbool(self, v):
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, bool):
            return z3.BoolVal(v)
        raise Unsupported('zbool')

    def zstr(self, v):
        if isinstance(v, (SBytes, SStr)):
            return v.t
        return zs(v)

    def znum(self, v):
        """z3 Int/Real of a numeric value."""
        if isinstance(v, SInt) or isinstance(v, SReal):
            return v.t
        if isinstance(v, SBool):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, bool):
            return z3.IntVal(1 if v else 0)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                raise Unsupported('non-finite float in arithmetic')
            # literals denote their decimal value, not the nearest double (A-REAL):
            from fractions import Fraction
            fr = Fraction(repr(v))
            return z3.RealVal(fr)
        raise Unsupported('number %r' % (v,))

    def num_pair(self, a, b):
        x, y = self.znum(a), self.znum(b)
        if x.sort() != y.sort():
            if x.sort() == z3.IntSort():
                x = z3.ToReal(x)
            else:
                y = z3.ToReal(y)
        return x, y

    def isnum(self, v):
        return isinstance(v, (SInt, SBool, SReal, int, float))

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, ast.Eq):
            return self.wrapb(self.eq(a, b))
        if isinstance(op, ast.NotEq):
            if isinstance(a, IObj):
                f, _ = a.cls.lookup('__ne__')
                if f is not MISSING:
                    return self.call(f, [a, b])
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else SBool(z3.Not(r))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            r = self.contains(b, a)
            return not self.truth(r)
        # ordering
        if isinstance(a, Sym) or isinstance(b, Sym):
            if self.isnum(a) and self.isnum(b):
                for u, v, flip in ((a, b, False), (b, a, True)):
                    if isinstance(u, float) and u != u:
                        return False
                    if isinstance(u, float) and u in (float('inf'), -float('inf')):
                        big = u > 0
                        if flip:
                            r = {ast.Lt: big, ast.LtE: big, ast.Gt: not big, ast.GtE: not big}
                        else:
                            r = {ast.Lt: not big, ast.LtE: not big, ast.Gt: big, ast.GtE: big}
                        return r[type(op)]
                x, y = self.num_pair(a, b)
                t = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y,
                     ast.GtE: lambda: x >= y}[type(op)]()
                return self.wrapb(self.cx.zb(t))
            if isinstance(a, (SBytes, bytes)) and isinstance(b, (SBytes, bytes)) or \
                    isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
                x, y = self.zstr(a), self.zstr(b)
                t = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: y < x,
                     ast.GtE: lambda: y <= x}[type(op)]()
                return self.wrapb(self.cx.zb(t))
            raise PyExc(TypeError('unorderable types'))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            for x, y in zip(a, b):
                if self.truth(self.eq(x, y)):
                    continue
                strict = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
                return self.compare(strict, x, y)
            la, lb = len(a), len(b)
            return {ast.Lt: la < lb, ast.LtE: la <= lb, ast.Gt: la > lb, ast.GtE: la >= lb}[type(op)]
        if isinstance(a, ISet) and isinstance(b, ISet):
            sub = all(b.has(self, x) for x in a.elems)
            sup = all(a.has(self, x) for x in b.elems)
            return {ast.LtE: sub, ast.GtE: sup, ast.Lt: sub and not sup, ast.Gt: sup and not sub}[type(op)]
        if isinstance(a, IObj):
            nm = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}[type(op)]
            f, _ = a.cls.lookup(nm)
            if f is not MISSING:
                return self.call(f, [a, b])
            raise PyExc(TypeError('unorderable'))
        if isinstance(a, (SOpaque, Opaque, NObj)) or isinstance(b, (SOpaque, Opaque, NObj)):
            raise Unsupported('ordering of %r, %r' % (a, b))
        fn = {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b,
              ast.GtE: lambda: a >= b}[type(op)]
        return self.host(fn)

    def wrapb(self, r):
        return r if isinstance(r, bool) else SBool(r)

    def is_(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return self.truth(self.sym_eq(a, b))
        if isinstance(a, IBound) and isinstance(b, IBound):
            return False
        if isinstance(a, (str, int, bytes)) and isinstance(b, (str, int, bytes)) and type(a) == type(b):
            return a == b
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a == b
        return False

    def contains(self, c, x):
        return self.lib.contains(c, x)

    def host(self, fn):
        try:
            return fn()
        except (PathEnd, Unsupported, PyExc):
            raise
        except Exception as e:
            raise PyExc(e)

    def binop(self, op, a, b):
        return self.lib.binop(op, a, b)

    def show(self, v):
        if isinstance(v, IObj):
            if v.payload is not None and isinstance(v.payload, tuple):
                return '%s%r' % (v.cls.name, tuple(str(x)[:120] for x in v.payload))
            return v.cls.name
        if isinstance(v, BaseException):
            return '%s(%s)' % (type(v).__name__, str(v)[:160])
        return repr(v)[:120]


def zand(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return z3.And(a, b)


class StarSeq(object):
    def __init__(self, seq):
        self.seq = seq


def seq_prepend(ip, vals, seq):
    n = len(vals)

    def elem(idx):
        idx = z3.simplify(idx)
        if z3.is_int_value(idx):
            i = idx.as_long()
            return vals[i] if i < n else seq.at(ip.cx, z3.IntVal(i - n))
        for i in range(n):
            if ip.cx.branch(idx == i):
                return vals[i]
        return seq.at(ip.cx, idx - n)
    return SSeq(seq.length + n, elem, 'tuple', 'prepend')


class ListIter(object):
    """Iterates a host list live, like CPython."""

    def __init__(self, lst):
        self.lst = lst

    def __iter__(self):
        i = 0
        while i < len(self.lst):
            yield self.lst[i]
            i += 1


class LazyIter(object):
    def __init__(self, gen):
        self.gen = gen
        self.started = None

    def iterate(self, ip):
        if self.started is None:
            self.started = self.gen()
        return self.started

    def next(self, ip):
        it = self.iterate(ip)
        if not hasattr(it, '__next__'):
            self.started = it = iter(it)
        return next(it)


class Many(object):
    """An unknown finite collection of distinct elements: src is where it came from, pick(ip) an arbitrary element (exploring every
    kind of element), size its number of elements (SMT integer). Loops over it need an invariant (cx.loops['for'])."""

    def __init__(self, src, pick, size, label, live=False):
        self.src, self.pick, self.size, self.label, self.live = src, pick, size, label, live

    def __repr__(self):
        return '<Many %s>' % self.label

    test = image = None
    order = None                 # the collection it was sorted from (sorted by the elements themselves), order being kept since

    def copy(self, label=None):
        m = Many(self.src, self.pick, self.size, label or self.label)
        m.parent, m.order = self, self.order
        return m

    def outcome(self, ip, known=()):
        """(taken, element) for an arbitrary element of the underlying collection."""
        chain, m = [], self
        while isinstance(m, Many):
            chain.append(m)
            m = getattr(m, 'parent', None)
        x = chain[-1].pick(ip)
        for m in reversed(chain[:-1]):
            if m.test is not None and not m.test(x):
                return False, None
            if m.image is not None:
                x = m.image(x)
        return True, x

    def root(self):
        m = self
        while getattr(m, 'parent', None) is not None:
            m = m.parent
        return m

    def derive(self, ip, image, test=None):
        """[image(x) for x in self if test(x)]: some element raises, or it is element-wise."""
        cx = ip.cx
        if cx.choose(2, None) == 1:
            x = self.pick(ip)
            if test is None or test(x):
                image(x)
            raise PathEnd()

        def pick(ip2):
            try:
                x = self.pick(ip2)
                if test is not None and not test(x):
                    raise PathEnd()
                return image(x)
            except PyExc:
                raise PathEnd()
        size = self.size
        if test is not None:
            size = z3.Int(cx.name('size'))
            cx.assume(z3.And(size >= 0, size <= self.size))
        m = Many(self, pick, size, 'of ' + self.label)
        m.parent, m.image, m.test, m.order = self, image, test, self.order
        cx.ghost.setdefault('derived', []).append(m)
        return m

    def loop_rule(self, ip, n, env, it):
        cx = ip.cx
        hook = cx.loops.get('for')
        hook = hook(ip, n, env, self) if hook is not None else None
        if hook is None:
            raise Unsupported('loop over an unknown collection (line %d)' % n.lineno)
        names = assigned_names(n.body)
        hook.entry(ip, env, names)
        if cx.choose(2, None) == 0:
            hook.before(ip, env, names)
            x = self.pick(ip)
            cx.cover('loop iteration')
            version = getattr(self.src, 'version', 0)
            ip.assign(n.target, x, env)
            hook.begin(ip, env, x)
            try:
                ip.block(n.body, env)
            except BreakSig:
                hook.broken(ip, env, x)
                return
            except ContinueSig:
                pass
            if self.live and getattr(self.src, 'version', 0) != version:
                raise PyExc(RuntimeError('collection changed size during iteration'))
            hook.end(ip, env, x)
            raise PathEnd('iteration done')
        hook.after(ip, env, names)
        ip.block(n.orelse, env)


class EachHook(object):
    """Invariant of a loop over an unknown collection; override what is needed."""

    def entry(self, ip, env, names):
        pass

    def before(self, ip, env, names):
        """an arbitrary earlier part of the loop has run."""
        if any(nm in env.vars for nm in names):
            raise Unsupported('loop over an unknown collection changes %s' % ', '.join(names))

    def begin(self, ip, env, x):
        pass

    def end(self, ip, env, x):
        pass

    def broken(self, ip, env, x):
        raise Unsupported('break out of a loop over an unknown collection')

    def after(self, ip, env, names):
        self.before(ip, env, names)


def assigned_names(stmts):
    out = set()
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
    return out


def as_many(ip, v):
    if isinstance(v, IObj) and isinstance(v.payload, IDict):
        v = v.payload
    if isinstance(v, Many):
        return v
    if isinstance(v, IDict) and getattr(v, 'pairs', None) is not None:
        return v.pairs.derive(ip, lambda kv: kv[0])
    if isinstance(v, IDict) and v.rest is not None and v.many is not None:
        return dict_many(ip, v, lambda it: it[0], True)
    if isinstance(v, ISet) and v.rest is not None and v.many is not None:
        def pick(ip2):
            i = ip2.cx.choose(len(v.elems) + 1, None)
            if i < len(v.elems):
                return v.elems[i]
            x = v.many(ip2)
            v.elems.append(x)
            return x
        if v.size is None:
            v.size = fresh_size(ip, 0)
        return Many(v, pick, v.size, 'set', True)
    return None


def fresh_size(ip, least):
    n = z3.Int(ip.cx.name('size'))
    ip.cx.assume(n >= least)
    return n


def dict_many(ip, d, what, live):
    def pick(ip2):
        i = ip2.cx.choose(len(d.items) + 1, None)
        if i == len(d.items):
            d.items.append(list(d.many(ip2)))
        d.picked = d.items[i]
        return what(d.items[i])
    if d.size is None:
        d.size = fresh_size(ip, 0)
    return Many(d, pick, d.size, 'dict', live)


def dict_from(pairs):
    """dict of a collection of pairs (with distinct keys: whoever uses it has to make sure)"""
    d = IDict()

    def rest(ip, key):
        raise Unsupported('lookup in a dict made from an unknown collection')
    d.rest, d.many, d.size, d.pairs = rest, None, pairs.size, pairs
    return d


class ManyCat(object):
    """list + unknown collection + ..."""

    def __init__(self, parts):
        self.parts = parts

    def loop_rule(self, ip, n, env, it):
        for part in self.parts:
            if isinstance(part, Many):
                m = ast.copy_location(ast.For(target=n.target, iter=n.iter, body=n.body, orelse=[]), n)
                part.loop_rule(ip, m, env, part)
                continue
            for x in part:
                ip.assign(n.target, x, env)
                try:
                    ip.block(n.body, env)
                except BreakSig:
                    raise Unsupported('break out of a loop over an unknown collection')
                except ContinueSig:
                    continue
        ip.block(n.orelse, env)


class SeqGen(object):
    """Generator expression over an unknown sequence (only any/all/join understand it)."""

    def __init__(self, seq, node, env):
        self.seq = seq
        self.node = node
        self.env = env


class IGen(object):
    """A generator object (non-coroutine): evaluated eagerly when consumed."""

    def __init__(self, ip, f, env):
        self.f = f
        self.env = env
        self.done = None

    def all(self, ip):
        out = []
        self.env.yields = lambda v: out.append(v)
        ip.run_body(self.f, self.env)
        return out

    def attr(self, ip, name):
        raise Unsupported('generator attribute ' + name)


class AttrView(object):
    def __init__(self, obj):
        self.obj = obj


class ABCMark(object):
    def __init__(self, name, test):
        self.name = name
        self.test = test


class CoroFunc(object):
    """tornado.gen.coroutine(f)."""

    def __init__(self, func):
        self.func = func

    def __repr__(self):
        return '<coroutine %r>' % self.func

    def start(self, ip, args, kw):
        fut = IFuture()
        f = self.func
        if ip.cx.ghost.get('coroutines') and isinstance(f, IFunc) and f.is_gen and f.qualname not in ip.cx.stubs:
            return self.spawn(ip, args, kw, fut)
        try:
            if isinstance(f, IFunc) and f.is_gen:
                stub = ip.cx.stubs.get(f.qualname)
                if stub is not None:
                    ip.cx.ledger.stubs[f.qualname] = ip.cx.ledger.stubs.get(f.qualname, 0) + 1
                    r = stub(ip, args, kw)
                    if isinstance(r, IFuture):
                        return r
                    fut.state, fut.value = 'result', r
                    return fut
                ip.entered[f.qualname] = ip.entered.get(f.qualname, 0) + 1
                env = Env(f.env, f.locals, f.glob, f)
                ip.bind_args(f, args, kw, env)
                env.yields = lambda v: ip.lib.await_(v)
                r = ip.run_body(f, env)
            else:
                r = ip.call(f, args, kw)
        except PyExc as e:
            if ip.lib.is_return(e.value):
                fut.state, fut.value = 'result', ip.lib.return_value(e.value)
            else:
                fut.state, fut.value = 'exc', e.value
            return fut
        fut.state, fut.value = 'result', r
        return fut


    def spawn(self, ip, args, kw, fut):
        f = self.func
        ip.entered[f.qualname] = ip.entered.get(f.qualname, 0) + 1
        env = Env(f.env, f.locals, f.glob, f)
        try:
            ip.bind_args(f, args, kw, env)
        except PyExc as e:
            fut.state, fut.value = 'exc', e.value
            return fut
        env.yields = lambda v: ip.lib.await_(v)

        def body():
            try:
                r = ip.run_body(f, env)
            except PyExc as e:
                if not ip.lib.is_return(e.value):
                    fut.m_set_exception(ip, e.value)
                    return
                r = ip.lib.return_value(e.value)
            fut.m_set_result(ip, r)
        c = Coro(ip, body)
        fut.coro = c
        c.resume()
        return fut


def env_owner(env):
    e = env
    while e is not None:
        if isinstance(e.func, IFunc) and e.func.owner is not None:
            return e.func.owner
        e = e.parent
    raise Unsupported('super()')


def env_self(env):
    e = env
    while e is not None:
        if isinstance(e.func, IFunc) and e.func.owner is not None:
            return e.vars[e.func.node.args.args[0].arg]
        e = e.parent
    raise Unsupported('super()')


SUPER = Native(None, 'super')
FUNC_TYPE = type(lambda: 0)
NATIVE_TYPES = {}
