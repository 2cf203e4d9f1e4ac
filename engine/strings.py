"""Models of bytes/str operations, formatting and regular expressions on symbolic strings.

Trusted facts about the Python library used here are instantiated through
``cx.axiom(name, fact)`` and so show up in the evidence with their use counts.
"""
import z3
from .core import *      # noqa
from .core import zs, R, UF, lat
try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:
    import sre_parse
    import sre_constants as sre_c


def term(v):
    return v.t if isinstance(v, Sym) else zs(v)


def wrap_like(v, t):
    t = z3.simplify(t)
    cls = SBytes if isinstance(v, (bytes, SBytes)) else SStr
    if z3.is_string_value(t):
        s = zs_decode(t.as_string())
        return s.encode('latin1') if cls is SBytes else s
    return cls(t)


def concat(ip, parts, cls):
    parts = [p for p in parts if not (isinstance(p, (bytes, str)) and len(p) == 0)]
    if not parts:
        return b'' if cls is SBytes else ''
    if all(isinstance(p, (bytes, str)) for p in parts):
        return (b'' if cls is SBytes else '').join(parts)
    if len(parts) == 1:
        return parts[0]
    return cls(z3.Concat(*[term(p) for p in parts]), ('concat', tuple(parts)))


def concat_bytes(ip, parts):
    return concat(ip, parts, SBytes)


def concat_str(ip, parts):
    return concat(ip, parts, SStr)


# ---------------------------------------------------------------- ints
def int_to_str(ip, v, cls):
    """'%d' % v"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return str(v) if cls is SStr else b'%d' % v
    t = ip.znum(v)
    if t.sort() == z3.RealSort():
        t = trunc(t)
    memo = ip.cx.ghost.setdefault('int_to_str', {})
    hit = memo.get(t.get_id())
    if hit is None:
        d = z3.String(ip.cx.name('digits'))
        r = z3.If(t >= 0, d, z3.Concat(zs('-'), d))
        if ip.cx._check(t < 0)[0] == z3.unsat:
            r = d
        ip.cx.axiom('decimal digits of |n| are a canonical digit string', z3.InRe(d, R('canondigits')))
        if ip.cx.ghost.get('int_axiom'):
            ip.cx.add(z3.StrToInt(d) == z3.If(t >= 0, t, -t))
        hit = memo[t.get_id()] = (t, r)
        if r is d:
            ip.cx.ghost.setdefault('term_int', {})[d.get_id()] = (d, t)
    return cls(hit[1], ('int', t))


def trunc(t):
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def str_to_int(ip, s):
    """int(s) for symbolic bytes/str: forks valid/invalid."""
    cx = ip.cx
    if s.info and s.info[0] == 'int':
        cx.ledger.axioms['int(b"%d" % i) == i'] = cx.ledger.axioms.get('int(b"%d" % i) == i', 0) + 1
        return SInt(s.info[1])
    t = s.t
    hit = cx.ghost.get('term_int', {}).get(t.get_id())
    if hit is not None and hit[0].eq(t):
        return SInt(hit[1])
    if cx.branch(z3.InRe(t, R('digits'))):
        return SInt(z3.StrToInt(t))
    neg = z3.Concat(z3.Re(zs('-')), R('digits'))
    if cx.branch(z3.InRe(t, neg)):
        return SInt(-z3.StrToInt(z3.SubString(t, 1, z3.Length(t) - 1)))
    # '+5', ' 5 ', '1_000', non-ASCII digits ...: what Python's int() also accepts
    if cx.branch(UF['intlit_other'](t)):
        return SInt(UF['intval_other'](t))
    raise PyExc(ValueError('invalid literal for int()'))


# ---------------------------------------------------------------- floats
def float_repr(ip, v, cls):
    if isinstance(v, float):
        return repr(v) if cls is SStr else repr(v).encode('ascii')
    t = ip.znum(v)
    r = UF['frepr'](t)
    cx = ip.cx
    if cx.ghost.get('repr_shape'):
        if cx.choose(2, None):
            cx.axiom('repr of a finite float is [-]digits.digits or has an exponent marked e', z3.Contains(r, zs('e')))
        else:
            r = fixed_shape(ip, t, True)
    cx.axiom('float(repr(x)) == x and repr(x) is ASCII',
             z3.And(UF['fok'](r), UF['fcls'](r) == 0, UF['fparse'](r) == t, z3.InRe(r, R('ascii*')), z3.Length(r) > 0))
    return cls(r, ('float', t))


def fixed_shape(ip, q, point):
    '''A term of the shape [-]digits[.digits] (sign by the sign of q; '-' also for negative zero).'''
    cx = ip.cx
    neg = cx.branch(q < 0)
    a, b = z3.String(cx.name('int_part')), z3.String(cx.name('frac_part'))
    cx.axiom('decimal notation: digits', z3.And(z3.InRe(a, R('digits')), z3.InRe(b, R('digits'))))
    ps = ([zs('-')] if neg else []) + [a] + ([zs('.'), b] if point else [])
    return z3.Concat(*ps) if len(ps) > 1 else a


def syntactic_cut(cx, t, sep):
    '''(before, after) of the first occurrence of the one-character literal sep, when the shape of the term decides it.'''
    c = sep.decode('latin1') if isinstance(sep, bytes) else sep
    if len(c) != 1:
        return None
    ps = list(flatten(z3.simplify(t)))
    other = z3.Union(*[re_range(lo, hi) for lo, hi in ((0, ord(c) - 1), (ord(c) + 1, 255)) if lo <= hi])
    for i, p in enumerate(ps):
        if isinstance(p, str):
            k = p.find(c)
            if k >= 0:
                def join(xs):
                    xs = [zs(x) if isinstance(x, str) else x for x in xs if not (isinstance(x, str) and x == '')]
                    return zs('') if not xs else z3.Concat(*xs) if len(xs) > 1 else xs[0]
                return join(ps[:i] + [p[:k]]), join([p[k + 1:]] + ps[i + 1:])
            continue
        if not in_star(cx, p, other):
            return None
    return 'absent'


def float_fixed(ip, v, prec, cls):
    '''b'%.Nf' % x for symbolic x: a decimal literal of a number within half a unit of the last place.'''
    cx = ip.cx
    t = ip.znum(v)
    t = z3.ToReal(t) if t.sort() == z3.IntSort() else t
    memo = cx.ghost.setdefault('float_fixed', {})
    hit = memo.get((t.get_id(), prec))
    if hit is None:
        r, q = z3.String(cx.name('fixed')), z3.Real(cx.name('rounded'))
        half = z3.RealVal('1/%d' % (2 * 10 ** prec))
        cx.axiom('"%.Nf" is an ASCII decimal literal within half a unit in the last place of the number',
                 z3.And(UF['fok'](r), UF['fcls'](r) == 0, UF['fparse'](r) == q, z3.InRe(r, R('ascii*')), z3.Length(r) > 0,
                        q - t <= half, t - q <= half))
        hit = memo[(t.get_id(), prec)] = (t, r, q)
    return cls(hit[1], ('float', hit[2]))


def str_to_float(ip, s):
    cx = ip.cx
    if s.info and s.info[0] == 'float':
        return SReal(s.info[1])
    if s.info and s.info[0] == 'int':
        return SReal(z3.ToReal(s.info[1]))
    if cx.branch(UF['fok'](s.t)):
        c = UF['fcls'](s.t)
        cx.assume(z3.And(c >= 0, c <= 3))
        if not cx.branch(c == 0):
            v = 'nan' if cx.branch(c == 1) else 'inf' if cx.branch(c == 2) else '-inf'
            cx.assume(z3.Or(z3.Contains(s.t, zs('n')), z3.Contains(s.t, zs('N'))) if v == 'nan' else
                      z3.Contains(s.t, zs('-')) if v == '-inf' else z3.Not(z3.PrefixOf(zs('-'), s.t)))
            return float(v)
        return SReal(UF['fparse'](s.t))
    raise PyExc(ValueError('could not convert string to float'))


def conjuncts(f):
    if z3.is_and(f):
        for c in f.children():
            yield from conjuncts(c)
    else:
        yield f


def free_consts(f):
    out, todo, seen = {}, [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.get_id()] = x
        todo += x.children()
    return out


def in_star(cx, t, rx):
    """Cheap sound test that t is in rx* using only facts about single variables of t."""
    memo = cx.ghost.setdefault('in_star', {})
    for piece in flatten(z3.simplify(t)):
        if isinstance(piece, str):
            s = z3.Solver()
            s.add(z3.Not(z3.InRe(zs(piece), z3.Star(rx))))
            if s.check() != z3.unsat:
                return False
            continue
        if not (z3.is_const(piece) and piece.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return False
        key = (piece.get_id(), rx.get_id(), len(cx.pc))
        r = memo.get(key)
        if r is None:
            s = z3.Solver()
            s.set('timeout', 1000)
            for f in cx.pc:
                for c in conjuncts(f):
                    fc = free_consts(c)
                    if list(fc) == [piece.get_id()] and 'u8' not in str(c.decl()):
                        s.add(c)
            s.add(z3.Not(z3.InRe(piece, z3.Star(rx))))
            r = (s.check() == z3.unsat, piece, rx)
            memo[key] = r
        if not r[0]:
            return False
    return True


# ---------------------------------------------------------------- codecs
def decode(ip, b, enc='utf-8', errors='strict'):
    cx = ip.cx
    if isinstance(b, bytes):
        return ip.host(lambda: b.decode(enc, errors))
    e = enc.lower().replace('_', '-')
    t = b.t
    if e in ('ascii', 'us-ascii'):
        if cx.branch(z3.InRe(t, R('ascii*'))):
            return SStr(t, b.info)
        if errors != 'strict':
            return SStr(z3.String(cx.name('decoded')))
        raise PyExc(UnicodeDecodeError('ascii', b'?', 0, 1, 'model'))
    if e in ('latin-1', 'latin1', 'iso-8859-1'):
        return SStr(t, b.info)
    if e in ('utf-8', 'utf8') and in_star(cx, t, re_range(0, 127)):
        cx.ledger.axioms['ASCII bytes decode to themselves'] = cx.ledger.axioms.get('ASCII bytes decode to themselves', 0) + 1
        return SStr(t, b.info)
    if e in ('utf-8', 'utf8'):
        r = UF['u8dec'](t)
        asc = z3.InRe(t, R('ascii*'))
        if b.info and b.info[0] in ('int', 'float'):
            return SStr(t, b.info)
        if b.info and b.info[0] == 'u8enc':
            cx.ledger.axioms['decode(encode(s)) == s'] = cx.ledger.axioms.get('decode(encode(s)) == s', 0) + 1
            return b.info[1]
        cx.axiom('UTF-8: ASCII bytes decode to themselves; encode(decode(b)) == b',
                 z3.And(z3.Implies(asc, z3.And(UF['u8ok'](t), r == t)),
                        z3.Implies(UF['u8ok'](t), z3.And(UF['u8enc'](r) == t, UF['nosurr'](r))),
                        z3.Implies(z3.And(UF['u8ok'](t), z3.InRe(r, R('ascii*'))), r == t),
                        (r == zs('')) == (t == zs(''))))
        if not cx.branch(UF['u8ok'](t)):
            if errors != 'strict':
                return SStr(z3.String(cx.name('decoded')))
            raise PyExc(UnicodeDecodeError('utf-8', b'?', 0, 1, 'model'))
        return SStr(r, ('u8dec', b))
    raise Unsupported('codec ' + enc)


TOTAL = ('backslashreplace', 'replace', 'ignore', 'xmlcharrefreplace', 'namereplace')       # error handlers that never raise


def arbitrary_bytes(cx, name):
    r = z3.String(cx.name(name))
    cx.add(z3.InRe(r, R('byte*')))
    return r


def encode(ip, s, enc='utf-8', errors='strict'):
    cx = ip.cx
    if isinstance(s, str):
        return ip.host(lambda: s.encode(enc, errors))
    e = enc.lower().replace('_', '-')
    t = s.t
    if s.info and s.info[0] in ('int', 'float'):
        return SBytes(t, s.info)
    asc = z3.InRe(t, R('ascii*'))
    if e in ('utf-8', 'utf8', 'ascii', 'us-ascii') and in_star(cx, t, re_range(0, 127)):
        cx.ledger.axioms['ASCII text encodes to itself'] = cx.ledger.axioms.get('ASCII text encodes to itself', 0) + 1
        return SBytes(t, s.info if s.info and s.info[0] in ('int', 'float') else None)
    if e in ('ascii', 'us-ascii'):
        if cx.branch(asc):
            return SBytes(t, s.info if s.info and s.info[0] in ('int', 'float') else None)
        if errors in TOTAL:
            return SBytes(arbitrary_bytes(cx, 'encoded'))
        raise PyExc(UnicodeEncodeError('ascii', '?', 0, 1, 'model'))
    if e in ('utf-8', 'utf8'):
        if s.info and s.info[0] == 'u8dec':
            return s.info[1]
        r = UF['u8enc'](t)
        cx.axiom('UTF-8: ASCII text encodes to itself; decode(encode(s)) == s',
                 z3.And(z3.Implies(asc, z3.And(r == t, UF['nosurr'](t))),
                        z3.Implies(UF['nosurr'](t), z3.And(UF['u8ok'](r), UF['u8dec'](r) == t)),
                        z3.Implies(z3.And(UF['nosurr'](t), z3.InRe(r, R('ascii*'))), r == t),
                        z3.InRe(r, R('byte*')), (r == zs('')) == (t == zs(''))))
        if not cx.branch(UF['nosurr'](t)):
            if errors in TOTAL:
                return SBytes(arbitrary_bytes(cx, 'encoded'))
            raise PyExc(UnicodeEncodeError('utf-8', '?', 0, 1, 'model'))
        return SBytes(r, ('u8enc', s))
    raise Unsupported('codec ' + enc)


# ---------------------------------------------------------------- regex -> z3
def chars(isbytes):
    return 255 if isbytes else 0x2FFFF


def category(cat, maxc):
    n = str(cat)
    dig = R('digit')
    word = z3.Union(R('alnum'), z3.Re(zs('_')))
    sp = z3.Union(z3.Re(zs(' ')), re_range(9, 13))
    anyc = re_range(0, maxc)
    m = {'CATEGORY_DIGIT': dig, 'CATEGORY_WORD': word, 'CATEGORY_SPACE': sp}
    if n in m:
        if maxc > 255:
            raise Unsupported('unicode category in a str pattern')
        return m[n]
    n2 = n.replace('NOT_', '')
    if n2 in m and maxc <= 255:
        return z3.Intersect(anyc, z3.Complement(m[n2]))
    raise Unsupported('regex category %s' % n)


def re_node(op, av, maxc, flags):
    n = str(op)
    anyc = re_range(0, maxc)
    if n == 'LITERAL':
        return z3.Re(zs(chr(av)))
    if n == 'NOT_LITERAL':
        return z3.Intersect(anyc, z3.Complement(z3.Re(zs(chr(av)))))
    if n == 'ANY':
        import re
        if flags & re.DOTALL:
            return anyc
        return z3.Union(re_range(0, 9), re_range(11, maxc))
    if n == 'IN':
        neg = False
        alts = []
        for o, a in av:
            on = str(o)
            if on == 'NEGATE':
                neg = True
            elif on == 'LITERAL':
                alts.append(z3.Re(zs(chr(a))))
            elif on == 'RANGE':
                alts.append(re_range(a[0], a[1]))
            elif on == 'CATEGORY':
                alts.append(category(a, maxc))
            else:
                raise Unsupported('regex IN ' + on)
        u = alts[0] if len(alts) == 1 else z3.Union(*alts)
        return z3.Intersect(anyc, z3.Complement(u)) if neg else u
    if n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
        lo, hi, sub = av
        r = re_seq(sub, maxc, flags)
        if str(hi) == 'MAXREPEAT':
            if lo == 0:
                return z3.Star(r)
            if lo == 1:
                return z3.Plus(r)
            return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
        if lo == 0 and hi == 1:
            return z3.Option(r)
        return z3.Loop(r, lo, hi)
    if n == 'SUBPATTERN':
        return re_seq(av[3], maxc, flags)
    if n == 'BRANCH':
        rs = [re_seq(s, maxc, flags) for s in av[1]]
        return z3.Union(*rs) if len(rs) > 1 else rs[0]
    raise Unsupported('regex ' + n)


def cat_re(rs):
    if not rs:
        return R('empty')
    return rs[0] if len(rs) == 1 else z3.Concat(*rs)


def re_seq(seq, maxc, flags):
    return cat_re([re_node(op, av, maxc, flags) for op, av in seq])


class MatchObj(object):
    pass


def top_level(pat):
    """(anchored_start, end_kind, nodes) of a compiled pattern."""
    isb = isinstance(pat.pattern, bytes)
    import re
    if pat.flags & ~(re.UNICODE | re.DOTALL):
        raise Unsupported('regex flags')
    tree = list(sre_parse.parse(pat.pattern, pat.flags & ~re.UNICODE if isb else pat.flags))
    start = False
    end = None
    if tree and str(tree[0][0]) == 'AT' and str(tree[0][1]) in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
        start = True
        tree = tree[1:]
    if tree and str(tree[-1][0]) == 'AT' and str(tree[-1][1]) in ('AT_END', 'AT_END_STRING'):
        end = str(tree[-1][1])
        tree = tree[:-1]
    return isb, start, end, tree


def re_match(ip, pat, s, mode):
    """mode 'match' | 'search' | 'fullmatch' -> None or native match object."""
    cx = ip.cx
    isb, start, end, nodes = top_level(pat)
    if isb != isinstance(s, (SBytes, bytes)):
        raise PyExc(TypeError('cannot use a string pattern on a bytes-like object'))
    maxc = chars(isb)
    flags = pat.flags
    body = re_seq(nodes, maxc, flags)
    anyw = z3.Star(re_range(0, maxc))
    if mode == 'fullmatch':
        full = body
    else:
        tail = [anyw] if end is None else ([z3.Option(z3.Re(zs('\n')))] if end == 'AT_END' else [])
        lead = [anyw] if (mode == 'search' and not start) else []
        full = cat_re(lead + [body] + tail)
    if not cx.branch(z3.InRe(s.t, full)):
        return None
    # groups: name -> value, for patterns that are a concatenation with groups on top level
    m = NMatch()
    m.pat = pat
    m.subject = s
    m.parts = None
    m.spec = (isb, start, end, nodes, mode, maxc, flags)
    return m


def char_set(op, av):
    """host set of codes in 0..256 (256 stands for all larger ones) matched by a one-character node."""
    n = str(op)
    if n == 'LITERAL':
        return {av} if av < 256 else None
    if n == 'NOT_LITERAL':
        return set(range(257)) - {av}
    if n == 'ANY':
        return set(range(257)) - {10}
    if n == 'IN':
        out, neg = set(), False
        for o, a in av:
            on = str(o)
            if on == 'NEGATE':
                neg = True
            elif on == 'LITERAL' and a < 256:
                out.add(a)
            elif on == 'RANGE' and a[1] < 256:
                out |= set(range(a[0], a[1] + 1))
            elif on == 'CATEGORY' and str(a) == 'CATEGORY_DIGIT':
                out |= set(range(48, 58))
            elif on == 'CATEGORY' and str(a) == 'CATEGORY_SPACE':
                out |= set([9, 10, 11, 12, 13, 32])
            else:
                return None
        return (set(range(257)) - out) if neg else out
    return None


def rep_spec(sub):
    """(char set, min, max or None) of a regex piece that is a repeated character class."""
    if sub is None or len(sub) != 1:
        return None
    op, av = sub[0]
    if str(op) in ('MAX_REPEAT',):
        lo, hi, inner = av
        if len(inner) != 1:
            return None
        cs = char_set(*inner[0])
        return None if cs is None else (cs, lo, None if str(hi) == 'MAXREPEAT' else hi)
    cs = char_set(op, av)
    return None if cs is None else (cs, 1, 1)


def set_re(cs):
    rs, codes = [], sorted(cs)
    i = 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        hi = codes[j]
        rs.append(re_range(codes[i], 0x2FFFF if hi == 256 else hi))
        i = j + 1
    return rs[0] if len(rs) == 1 else (z3.Union(*rs) if rs else R('none'))


def flatten(t):
    if t.decl().name() == 'str.++':
        out = []
        for c in t.children():
            out += flatten(c)
        return out
    if z3.is_string_value(t):
        from .core import zs_decode
        return list(zs_decode(t.as_string()))
    return [t]


def align(cx, core, specs, subject, opt_nl):
    r = align_dir(cx, core, specs, subject, opt_nl, False)
    if r is None and not opt_nl:
        r = align_dir(cx, core, specs, subject, False, True)
    return r


def never_at_edge(cx, v, ch, rev):
    """v is not empty and cannot start (end, if rev) with ch, from facts about v alone."""
    local = [c for f in cx.pc for c in conjuncts(f) if list(free_consts(c)) == [v.get_id()]]
    sl = z3.Solver()
    sl.set('timeout', 1000)
    sl.add(*local)
    sl.add(z3.Or(z3.Length(v) == 0, (z3.SuffixOf if rev else z3.PrefixOf)(zs(ch), v)))
    return sl.check() == z3.unsat


def align_dir(cx, core, specs, subject, opt_nl, rev):
    """Unique factorisation of the subject by a deterministic pattern, or None.

    Adjacent pattern pieces have disjoint character sets, so the factorisation found
    syntactically is the only one; a definite mismatch ends the path."""
    ps = []
    for c in core:
        if z3.is_string_value(c):
            from .core import zs_decode
            ps += [('lit', ch) for ch in zs_decode(c.as_string())]
        else:
            sp = specs.get(c.get_id())
            if sp is None:
                return None
            ps.append(('rep', sp, c))

    if rev:
        ps.reverse()

    def first(i):
        out = set()
        while i < len(ps):
            if ps[i][0] == 'lit':
                return out | {min(ord(ps[i][1]), 256)}
            out |= ps[i][1][0]
            if ps[i][1][1] > 0:
                return out
            i += 1
        return out | ({10} if opt_nl else set())
    for i, p in enumerate(ps):
        if p[0] == 'rep' and p[1][1:] != (1, 1) and p[1][0] & first(i + 1):
            return None
    subj = flatten(z3.simplify(subject))
    if rev:
        subj.reverse()
    out = []
    for p in ps:
        if p[0] == 'lit':
            if not subj:
                raise PathEnd()
            if not isinstance(subj[0], str):
                if z3.is_const(subj[0]) and never_at_edge(cx, subj[0], p[1], rev):
                    raise PathEnd()
                return None
            if subj[0] != p[1]:
                raise PathEnd()
            subj.pop(0)
            continue
        cs, lo, hi = p[1]
        if hi is not None:
            if (lo, hi) != (1, 1) or not subj:
                return None
            if not isinstance(subj[0], str):
                if rev:
                    return None
                v = subj[0]
                local = [c for f in cx.pc for c in conjuncts(f) if list(free_consts(c)) == [v.get_id()]]
                sl = z3.Solver()
                sl.set('timeout', 1000)
                sl.add(*local)
                sl.add(z3.Not(z3.InRe(z3.SubString(v, 0, 1), set_re(cs))))
                if sl.check() != z3.unsat:
                    return None
                v0, v1 = z3.String(cx.name('m_first')), z3.String(cx.name('m_rest'))
                cx.add(z3.And(v == z3.Concat(v0, v1), z3.Length(v0) == 1, z3.InRe(v0, set_re(cs))))
                for q in ps:
                    if q[0] == 'rep' and in_star(cx, v, set_re(q[1][0])):
                        cx.add(z3.InRe(v1, z3.Star(set_re(q[1][0]))))
                out.append((p[2], v0))
                subj[0] = v1
                continue
            if min(ord(subj[0]), 256) not in cs:
                raise PathEnd()
            out.append((p[2], zs(subj.pop(0))))
            continue
        got = []
        while subj:
            h = subj[0]
            if isinstance(h, str):
                if min(ord(h), 256) not in cs:
                    break
                got.append(zs(h))
            else:
                if not in_star(cx, h, set_re(cs)):
                    return None
                got.append(h)
            subj.pop(0)
        if rev:
            got.reverse()
        v = got[0] if len(got) == 1 else (z3.Concat(*got) if got else zs(''))
        if lo > 0:
            if not got:
                raise PathEnd()
            if cx._check(z3.Length(v) < lo)[0] != z3.unsat:
                return None
        out.append((p[2], v))
    if subj and opt_nl and subj == ['\n']:
        subj = []
    if subj:
        if isinstance(subj[0], str):
            raise PathEnd()
        return None
    return out


class NMatch(NObj):
    clsname = 'match'

    def solve(self, ip):
        """Introduce strings for the top-level pieces: s == lead.p1.p2...tail."""
        if self.parts is not None:
            return
        cx = ip.cx
        isb, start, end, nodes, mode, maxc, flags = self.spec
        cls = SBytes if isb else SStr
        pieces = []
        self.groups = {}

        specs = {}

        def fresh(hint, sub=None):
            t = z3.String(cx.name('m_' + hint))
            specs[t.get_id()] = rep_spec(sub)
            return t
        if mode == 'search' and not start:
            lead = fresh('lead')
            cx.add(z3.InRe(lead, z3.Star(re_range(0, maxc))))
            pieces.append(lead)
            self.start_t = z3.Length(lead)
            # leftmost: a proper over-approximation; single-character classes get it exactly
            if len(nodes) == 1 and str(nodes[0][0]) in ('IN', 'LITERAL', 'NOT_LITERAL', 'ANY'):
                r = re_node(nodes[0][0], nodes[0][1], maxc, flags)
                cx.add(z3.InRe(lead, z3.Star(z3.Intersect(re_range(0, maxc), z3.Complement(r)))))
        core = []

        def expand(nodes):
            for op, av in nodes:
                n = str(op)
                if n == 'SUBPATTERN' and av[0] is not None:
                    gid, _, _, sub = av
                    st = len(core)
                    if has_group(sub) or len(sub) > 1:
                        expand(sub)
                    else:
                        t = fresh('g%d' % gid, sub)
                        cx.add(z3.InRe(t, re_seq(sub, maxc, flags)))
                        core.append(t)
                    seg = core[st:]
                    self.groups[gid] = cls(seg[0] if len(seg) == 1 else z3.Concat(*seg)) if seg else \
                        (b'' if isb else '')
                elif n == 'MAX_REPEAT' and has_group(av[2]):
                    lo, hi, sub = av
                    if (lo, hi) != (0, 1):
                        raise Unsupported('repeated group')
                    if cx.choose(2, None) == 0:
                        expand(sub)
                    else:
                        for g in group_ids(sub):
                            self.groups[g] = None
                elif n == 'BRANCH' and any(has_group(x) for x in av[1]):
                    raise Unsupported('group inside alternation')
                elif n == 'LITERAL':
                    core.append(zs(chr(av)))
                else:
                    t = fresh('p', [(op, av)])
                    cx.add(z3.InRe(t, re_node(op, av, maxc, flags)))
                    core.append(t)
        expand(nodes)
        if (mode != 'search' or start) and (mode == 'fullmatch' or end is not None):
            al = align(cx, core, specs, self.subject.t, mode != 'fullmatch' and end == 'AT_END')
            if al is not None:
                subst = [(c, v) for c, v in al]
                self.groups = {g: (cls(z3.simplify(z3.substitute(v.t, *subst))) if isinstance(v, Sym) else v)
                               for g, v in self.groups.items()}
                self.groups[0] = cls(self.subject.t)
                self.parts = core
                for c, v in al:
                    cx.add(c == v)
                return
        whole = core[0] if len(core) == 1 else (z3.Concat(*core) if core else zs(''))
        self.groups[0] = cls(whole)
        pieces += core
        if mode != 'fullmatch':
            if end is None:
                tail = fresh('tail')
                cx.add(z3.InRe(tail, z3.Star(re_range(0, maxc))))
                pieces.append(tail)
                self.tail = tail
            elif end == 'AT_END':
                tail = fresh('nl')
                cx.add(z3.Or(tail == zs(''), tail == zs('\n')))
                pieces.append(tail)
        cat = pieces[0] if len(pieces) == 1 else z3.Concat(*pieces)
        self.parts = pieces
        cx.assume(self.subject.t == cat)

    def m_group(self, ip, *which):
        self.solve(ip)
        out = []
        for w in (which or (0,)):
            if isinstance(w, str):
                if w not in self.pat.groupindex:
                    raise PyExc(IndexError('no such group'))
                w = self.pat.groupindex[w]
            out.append(self.groups.get(w))
        return out[0] if len(out) == 1 else tuple(out)

    def m___getitem__(self, ip, w):
        return self.m_group(ip, w)

    def m_groups(self, ip, default=None):
        self.solve(ip)
        n = self.pat.groups
        return tuple(self.groups.get(i) if self.groups.get(i) is not None else default
                     for i in range(1, n + 1))

    def m_groupdict(self, ip):
        from .interp import IDict
        self.solve(ip)
        return IDict([(k, self.groups.get(i)) for k, i in self.pat.groupindex.items()])


def has_group(sub):
    return bool(group_ids(sub))


def group_ids(sub):
    out = []
    for op, av in sub:
        n = str(op)
        if n == 'SUBPATTERN':
            if av[0] is not None:
                out.append(av[0])
            out += group_ids(av[3])
        elif n in ('MAX_REPEAT', 'MIN_REPEAT'):
            out += group_ids(av[2])
        elif n == 'BRANCH':
            for x in av[1]:
                out += group_ids(x)
    return out


def single_char_class(pat):
    """host set of byte values if the pattern is one character class, else None."""
    try:
        isb, start, end, nodes = top_level(pat)
    except Unsupported:
        return None
    if start or end or len(nodes) != 1 or not isb:
        return None
    if str(nodes[0][0]) in ('IN', 'LITERAL', 'NOT_LITERAL', 'ANY'):
        return set(b for b in range(256) if pat.match(bytes([b])))
    return None
