"""Path context, symbolic values and the obligation ledger of the VC generator.

A *contract* is a Python function ``contract(cx)`` that builds an arbitrary
(symbolic) pre-state, calls the real function (interpreted from /repo's source
by engine.interp) and states postconditions with ``cx.prove``.  The contract is
executed once per feasible path; branching on a symbolic condition forks by
re-execution with a recorded decision prefix (depth first).  Every ``prove`` is
an obligation ``path-condition => formula`` sent to the SMT solver.
"""
import os
import re as _re
import subprocess
import tempfile
import time
import z3


class Unsupported(Exception):
    """The engine cannot follow the code here: the run is undecided."""


class PathEnd(Exception):
    """The current path is infeasible / cut."""


class PyExc(Exception):
    """A Python exception raised by interpreted code (value: IObj or host exception)."""

    def __init__(self, value):
        Exception.__init__(self, value)
        self.value = value


# ---------------------------------------------------------------- values
class Sym(object):
    __slots__ = ('t', 'info')

    def __init__(self, t, info=None):
        self.t = t
        self.info = info

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, str(self.t)[:80])

    __hash__ = object.__hash__

    def __eq__(self, other):        # guard: the engine must never use host equality on symbols
        return self is other

    def __bool__(self):
        raise Unsupported('host truth test of %r' % self)


class SInt(Sym):
    pyname = 'int'
    __slots__ = ()


class SBool(Sym):
    pyname = 'bool'
    __slots__ = ()


class SReal(Sym):
    """A finite float, modelled as a mathematical real (assumption A-REAL)."""
    pyname = 'float'
    __slots__ = ()


class SBytes(Sym):
    """bytes, as an SMT string whose characters are 0..255."""
    pyname = 'bytes'
    __slots__ = ()


class SStr(Sym):
    pyname = 'str'
    __slots__ = ()


class SOpaque(object):
    """Some object about which nothing is known but its identity (and kind)."""

    def __init__(self, name, kind=None):
        self.name = name
        self.kind = kind

    def __repr__(self):
        return '<opaque %s>' % self.name


class SSeq(object):
    """Immutable sequence of unknown length; elem(z3Int) -> value."""

    def __init__(self, length, elem, kind='list', name='seq'):
        self.length = length      # z3 Int term
        self._elem = elem
        self.kind = kind
        self.name = name
        self._cache = {}

    def at(self, cx, idx):
        idx = z3.simplify(idx) if z3.is_expr(idx) else z3.IntVal(idx)
        key = idx.get_id()
        hit = self._cache.get(key)
        if hit is None:
            hit = (idx, self._elem(idx))
            self._cache[key] = hit
        return hit[1]

    def __repr__(self):
        return '<SSeq %s>' % self.name


class SList(object):
    """Mutable list holding an SSeq (for del x[-1], append ...)."""

    def __init__(self, seq):
        self.seq = seq

    def __repr__(self):
        return '<SList %r>' % self.seq


def lat(b):
    return ''.join(chr(c) for c in b)


def zs(x):
    """z3 string literal for host bytes/str."""
    if isinstance(x, bytes):
        x = lat(x)
    return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in x))


def zs_decode(s):
    return _re.sub(r'\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\x([0-9a-fA-F]{2})',
                   lambda m: chr(int(m.group(1) or m.group(2) or m.group(3), 16)), s)


RE_ANY = None


def re_range(a, b):
    return z3.Range(zs(chr(a)), zs(chr(b)))


_c = {}


def R(name):
    """Named z3 regexes (built lazily)."""
    if name in _c:
        return _c[name]
    rs = z3.ReSort(z3.StringSort())
    if name == 'byte*':
        r = z3.Star(re_range(0, 255))
    elif name == 'ascii*':
        r = z3.Star(re_range(0, 127))
    elif name == 'digit':
        r = re_range(48, 57)
    elif name == 'digits':
        r = z3.Plus(R('digit'))
    elif name == 'canondigits':
        r = z3.Union(z3.Re(zs('0')), z3.Concat(re_range(49, 57), z3.Star(R('digit'))))
    elif name == 'alpha':
        r = z3.Union(re_range(65, 90), re_range(97, 122))
    elif name == 'alnum':
        r = z3.Union(R('digit'), R('alpha'))
    elif name == 'all':
        r = z3.Full(rs)
    elif name == 'empty':
        r = z3.Re(zs(''))
    elif name == 'none':
        r = z3.Empty(rs)
    elif name == 'intlit':     # what Python's int() accepts (ASCII part, no underscores)
        ws = z3.Star(z3.Union(z3.Re(zs(' ')), re_range(9, 13)))
        r = z3.Concat(ws, z3.Option(z3.Union(z3.Re(zs('+')), z3.Re(zs('-')))),
                      R('digits'), ws)
    elif name == 'canonint':
        r = z3.Concat(z3.Option(z3.Re(zs('-'))), R('digits'))
    else:
        raise KeyError(name)
    _c[name] = r
    return r


# uninterpreted library functions (their axioms are instantiated where used)
S = z3.StringSort()
UF = {
    'u8enc': z3.Function('u8enc', S, S),
    'u8dec': z3.Function('u8dec', S, S),
    'u8ok': z3.Function('u8ok', S, z3.BoolSort()),
    'nosurr': z3.Function('nosurr', S, z3.BoolSort()),
    'frepr': z3.Function('frepr', z3.RealSort(), S),
    'fparse': z3.Function('fparse', S, z3.RealSort()),
    'fcls': z3.Function('fcls', S, z3.IntSort()),        # of a number literal: 0 finite, 1 nan, 2 inf, 3 -inf
    'fok': z3.Function('fok', S, z3.BoolSort()),
    'isalnum_u': z3.Function('isalnum_u', S, z3.BoolSort()),
    'isalpha_u': z3.Function('isalpha_u', S, z3.BoolSort()),
    'isdigit_u': z3.Function('isdigit_u', S, z3.BoolSort()),
    'lower': z3.Function('lower', S, S),
    'upper': z3.Function('upper', S, S),
    'intlit_other': z3.Function('intlit_other', S, z3.BoolSort()),
    'intval_other': z3.Function('intval_other', S, z3.IntSort()),
}


MISSING = object()


class NObj(object):
    """Native (modelled) object: methods are m_<name>(interp, *args, **kw); attrs a_<name>."""
    clsname = 'native'

    def get(self, interp, name):
        m = getattr(self, 'm_' + name, None)
        if m is not None:
            return Native(lambda ip, a, k, m=m: m(ip, *a, **k), self.clsname + '.' + name)
        if ('a_' + name) in self.__dict__ or hasattr(type(self), 'a_' + name):
            return getattr(self, 'a_' + name)
        return MISSING

    def set(self, interp, name, value):
        setattr(self, 'a_' + name, value)


class Native(object):
    def __init__(self, fn, name='native'):
        self.fn = fn
        self.name = name

    def __repr__(self):
        return '<native %s>' % self.name


class Ledger(object):
    """Obligations of one contract over all its paths."""

    def __init__(self, contract):
        self.contract = contract
        self.obl = {}
        self.paths = 0
        self.cut = 0
        self.solver_time = 0.0
        self.queries = 0
        self.undecided = []
        self.covers = {}
        self.functions = {}
        self.stubs = {}
        self.axioms = {}
        self.backends = {}
        self.wall = 0.0

    def o(self, name):
        return self.obl.setdefault(name, {'checked': 0, 'discharged': 0, 'refuted': [], 'unknown': 0})

    def status(self):
        if any(o['refuted'] for o in self.obl.values()):
            return 'refuted'
        if self.undecided or any(o['unknown'] for o in self.obl.values()):
            return 'undecided'
        if not self.obl:
            return 'undecided'
        return 'proved'


class Cx(object):
    """One path."""
    FEAS_MS = 3000
    PROVE_MS = 12000

    def __init__(self, ledger, prefix):
        self.ledger = ledger
        self.failed = False
        self.prefix = prefix
        self.trail = []              # [choice, n_alternatives, label]
        self.solver = z3.Solver()
        self.solver.set('timeout', self.FEAS_MS)
        self.pc = []
        self.counter = {}
        self.inputs = {}             # replay: name -> (kind, term)
        self.choices = {}            # replay: label -> chosen index
        self.ghost = {}
        self.stubs = {}
        self.interp = None
        self.depth_limit = 4000
        self.loops = {}
        self.notes = []

    # -- naming
    def name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)

    # -- inputs
    def int(self, base, input=True):
        n = self.name(base)
        t = z3.Int(n)
        if input:
            self.inputs[n] = ('int', t)
        return SInt(t)

    def bool(self, base, input=True):
        n = self.name(base)
        t = z3.Bool(n)
        if input:
            self.inputs[n] = ('bool', t)
        return SBool(t)

    def real(self, base, input=True):
        n = self.name(base)
        t = z3.Real(n)
        if input:
            self.inputs[n] = ('real', t)
        return SReal(t)

    def bytes(self, base, input=True, axiom=True):
        n = self.name(base)
        t = z3.String(n)
        if input:
            self.inputs[n] = ('bytes', t)
        if axiom:
            self.add(z3.InRe(t, R('byte*')))
        return SBytes(t)

    def str(self, base, input=True):
        n = self.name(base)
        t = z3.String(n)
        if input:
            self.inputs[n] = ('str', t)
        return SStr(t)

    def opaque(self, base, kind=None):
        return SOpaque(self.name(base), kind)

    # -- path condition
    def add(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathEnd()
        self.solver.add(cond)
        self.pc.append(cond)

    def axiom(self, name, cond):
        self.ledger.axioms[name] = self.ledger.axioms.get(name, 0) + 1
        self.add(cond)

    def _check(self, extra, ms=None):
        t0 = time.time()
        self.solver.push()
        if extra is not None:
            self.solver.add(extra)
        if ms:
            self.solver.set('timeout', ms)
        r = self.solver.check()
        if ms:
            self.solver.set('timeout', self.FEAS_MS)
        model = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.ledger.solver_time += time.time() - t0
        self.ledger.queries += 1
        return r, model

    def assume(self, cond, check=True):
        """check=False: the path goes on even if the assumption is impossible here (and proves nothing then)."""
        cond = self.zb(cond)
        if cond is True:
            return
        if cond is False:
            raise PathEnd()
        self.add(cond)
        if not check:
            return
        r, _ = self._check(None)
        if r == z3.unsat:
            raise PathEnd()

    def zb(self, cond):
        """host bool / z3 Bool from a value."""
        if isinstance(cond, SBool):
            cond = cond.t
        if isinstance(cond, bool):
            return cond
        if z3.is_expr(cond):
            c = z3.simplify(cond)
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
            return cond
        raise Unsupported('not a condition: %r' % (cond,))

    # -- nondeterminism
    def choose(self, n, label=None):
        i = len(self.trail)
        if i >= self.depth_limit:
            raise Unsupported('path too deep')
        k = self.prefix[i][0] if i < len(self.prefix) else 0
        self.trail.append([k, n])
        if label is not None:
            self.choices[self.name('choice:' + label)] = k
        return k

    def pick(self, label, options):
        """Nondeterministic choice among host values (recorded for replay)."""
        options = list(options)
        k = self.choose(len(options), label)
        return options[k]

    def branch(self, cond, label=None):
        cond = self.zb(cond)
        if cond is True or cond is False:
            return cond
        i = len(self.trail)
        if i < len(self.prefix):
            k, n = self.prefix[i]
            self.trail.append([k, n])
            self.add(cond if k == 0 else z3.Not(cond))
            return k == 0
        if i >= self.depth_limit:
            raise Unsupported('path too deep')
        rt, _ = self._check(cond)
        if rt == z3.unsat:
            self.trail.append([1, 2])
            self.add(z3.Not(cond))
            return False
        rf, _ = self._check(z3.Not(cond))
        self.trail.append([0, 1 if rf == z3.unsat else 2])
        self.add(cond)
        return True

    # -- obligations
    def prove(self, name, cond, info=None):
        o = self.ledger.o(name)
        cond = self.zb(cond)
        o['checked'] += 1
        if cond is True:
            # still guard against vacuity: the path must be feasible (checked at path end)
            o['discharged'] += 1
            self._bk('simplifier')
            return True
        neg = None if cond is False else z3.Not(cond)
        r, model = self._check(neg, self.PROVE_MS // 4)
        if r == z3.unsat:
            o['discharged'] += 1
            self._bk('z3')
            return True
        if r == z3.unknown:
            r2 = self._cvc5(neg)
            if r2 == 'unsat':
                o['discharged'] += 1
                self._bk('cvc5')
                return True
            r, model = self._check(neg, self.PROVE_MS)
            if r == z3.unsat:
                o['discharged'] += 1
                self._bk('z3')
                return True
            if r == z3.sat:
                self.failed = True
                o['refuted'].append(self.witness(model, name, info))
                return False
            o['unknown'] += 1
            return None
        self.failed = True
        o['refuted'].append(self.witness(model, name, info))
        return False

    def refute(self, name, info=None):
        return self.prove(name, False, info)

    def cover(self, name):
        self.ledger.covers[name] = self.ledger.covers.get(name, 0) + 1

    def _bk(self, b):
        self.ledger.backends[b] = self.ledger.backends.get(b, 0) + 1

    def _cvc5(self, neg):
        try:
            s = z3.Solver()
            for c in self.pc:
                s.add(c)
            if neg is not None:
                s.add(neg)
            txt = '(set-logic ALL)\n' + s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(txt)
            t0 = time.time()
            try:
                p = subprocess.run(['cvc5', '--tlimit=10000', '--strings-exp', f.name],
                                   capture_output=True, text=True, timeout=15)
                out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else ''
            finally:
                os.unlink(f.name)
                self.ledger.solver_time += time.time() - t0
            return out
        except Exception:
            return 'error'

    def witness(self, model, name, info=None):
        vals = {}
        if model is not None:
            for n, (kind, t) in self.inputs.items():
                try:
                    v = model.eval(t, model_completion=True)
                    if kind == 'int':
                        vals[n] = v.as_long()
                    elif kind == 'bool':
                        vals[n] = z3.is_true(v)
                    elif kind == 'real':
                        vals[n] = float(v.numerator_as_long()) / float(v.denominator_as_long()) \
                            if z3.is_rational_value(v) else str(v)
                    else:
                        vals[n] = zs_decode(v.as_string())
                except Exception as e:
                    vals[n] = 'unprintable: %s' % e
        return {'obligation': name, 'contract': self.ledger.contract,
                'values': vals, 'choices': dict(self.choices), 'info': info if info is None else repr(info)[:1500],
                'notes': self.notes[-5:]}


from .coro import Coro, collect             # noqa


def run_contract(name, fn, interp, max_paths=20000, budget=120.0, quiet=True):
    """Explore all paths of one contract."""
    led = Ledger(name)
    t0 = time.time()
    prefix = []
    while True:
        cx = Cx(led, prefix)
        cx.interp = interp
        interp.begin_path(cx)
        ended = 'ok'
        try:
            fn(cx)
        except PathEnd:
            ended = 'cut'
            led.cut += 1
        except Unsupported as e:
            ended = 'unsupported'
            led.undecided.append('%s [at %s]' % (str(e)[:300], interp.line))
        except PyExc as e:
            ended = 'exc'
            led.undecided.append('uncaught interpreted exception in contract: %s' % interp.show(e.value) + ' [at %s]' % (interp.line,))
        except RecursionError:
            ended = 'unsupported'
            led.undecided.append('recursion limit')
        except z3.Z3Exception as e:
            ended = 'unsupported'
            led.undecided.append('z3: %s' % (str(e)[:200],))
        except Exception as e:
            # after a refuted obligation the contract's own code may meet what it does not expect
            ended = 'error'
            if cx.failed:
                led.cut += 1
            else:
                if os.environ.get('VERIF_DEBUG'):
                    raise
                led.undecided.append('error in contract: %s: %s [at %s]' % (type(e).__name__, str(e)[:200], interp.line))
        Coro.kill_all()
        collect()
        led.paths += 1
        if len(led.undecided) > 25:
            led.undecided.append('... giving up on this contract')
            break
        if time.time() - t0 > budget or led.paths >= max_paths:
            led.undecided.append('budget: %d paths, %.0fs' % (led.paths, time.time() - t0))
            break
        # backtrack
        trail = cx.trail
        while trail and trail[-1][0] + 1 >= trail[-1][1]:
            trail.pop()
        if not trail:
            break
        prefix = [list(c) for c in trail]
        prefix[-1][0] += 1
    led.functions = dict(interp.entered)
    interp.entered = {}
    led.wall = time.time() - t0
    return led
