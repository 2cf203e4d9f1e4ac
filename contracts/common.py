"""Helpers shared by the contract modules."""
import os
import sys
import z3
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine.core import *            # noqa
from engine import core, interp as I, lib as L, strings as STR   # noqa
from engine.interp import (IObj, IDict, ISet, IFunc, IBound, IClass, CharSet, IFuture, LazyIter, EachHook, Many)  # noqa


def exc_name(ip, e):
    v = e.value
    return v.cls.name if isinstance(v, IObj) else type(v).__name__


def attempt(ip, f, *a, **k):
    """('ok', value) or ('raise', exception value)."""
    try:
        return 'ok', ip.call(f, list(a), k)
    except PyExc as e:
        return 'raise', e.value


def is_exc(ip, v, cls):
    if isinstance(cls, str):
        cls = ip.get(cls)
    return ip.isinstance_(v, cls)


def ename(v):
    return v.cls.name if isinstance(v, IObj) else type(v).__name__


def t(v):
    """z3 term of a value (host or symbolic)."""
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        return z3.RealVal(repr(v))
    if isinstance(v, (bytes, str)):
        return zs(v)
    raise Unsupported('term of %r' % (v,))


def eqv(ip, a, b):
    """Equality as a host bool / z3 Bool (type-strict between bytes/str)."""
    r = ip.eq(a, b)
    return r


def is_type(v, *names):
    if isinstance(v, Sym):
        return v.pyname in names
    return type(v).__name__ in names


def need(obj, *names):
    """The representation this contract's invariant talks about is still there (else undecided, not refuted)."""
    for n in names:
        if n not in obj.attrs:
            raise Unsupported('representation changed: no attribute %s' % n)


def bool_t(ip, v):
    """z3 Bool / host bool of a truth value without forking."""
    return ip.zbool(v)


def run_src(ip, src, **names):
    """Run harness (ghost) code written in Python in the interpreter; returns its namespace."""
    import ast as _ast
    ns = {'__name__': 'ghost', '__file__': 'ghost'}
    ns.update(names)
    env = I.Env(None, None, ns)
    for st in _ast.parse(src).body:
        ip.ex(st, env)
    return ns


def func_of(env):
    while env is not None:
        if env.func is not None:
            return env.func
        env = env.parent


def assigned(stmts):
    """Names (of the function's own scope) a block may assign."""
    import ast as _ast
    out = set()
    for s in stmts:
        for x in _ast.walk(s):
            if isinstance(x, _ast.Name) and isinstance(x.ctx, (_ast.Store, _ast.Del)):
                out.add(x.id)
            elif isinstance(x, _ast.ExceptHandler) and x.name:
                out.add(x.name)
    return out


def while_invariant(cx, qualname, havoc, check):
    """Hoare rule for the (outermost) while loop of one function: check('entry') before the loop; then an arbitrary iteration starts
    from a state havoc(env, names) chooses within the invariant (names: locals the body assigns); check('kept') after the body ends
    normally or by continue, and the path ends there; leaving the loop by its condition or break goes on after the loop."""
    state = {}

    def rule(ip, n, env):
        f = func_of(env)
        if f is None or f.qualname != qualname or state.get('in'):
            return False
        state['in'] = True
        check('entry')
        havoc(env, assigned(n.body))
        cx.cover('loop iteration')
        if not ip.truth(ip.ev(n.test, env)):
            ip.block(n.orelse, env)
            return True
        try:
            ip.block(n.body, env)
        except I.BreakSig:
            return True
        except I.ContinueSig:
            pass
        check('kept')
        raise PathEnd('iteration done')
    cx.loops['while'] = rule


def for_each(cx, table):
    """Invariants of loops over unknown collections: {qualname or qualname:i (i-th such loop met in it): EachHook}."""
    seen = {}

    def rule(ip, n, env, many):
        f = func_of(env)
        q = f.qualname if f is not None else None
        for key, hook in table.items():
            if key == q or q is not None and q.startswith(key + '.'):
                return hook
        return None
    cx.loops['for'] = rule


def unknown_dict(items, fresh, value_of=None):
    """A dict of arbitrary many items: the given ones and any number of further ones, each made by fresh(ip) -> (key, value)."""
    d = IDict(items)
    d.rest = value_of or (lambda ip, key: fresh(ip)[1])
    d.many = fresh
    return d


def unknown_set(elems, fresh):
    s = ISet(elems)
    s.rest = lambda ip, x: None
    s.many = fresh
    return s


def decimal_of(v):
    """The integer (term) of which v is the decimal text, or None."""
    if isinstance(v, (str, bytes)):
        return z3.IntVal(int(v)) if v and v.isdigit() else None
    if isinstance(v, Sym) and v.info and v.info[0] == 'int':
        return v.info[1]
    return None
