"""Library contracts shared by the message properties: re.sub / re.split / join on unknown strings.

Only the *structure* of the compiled pattern found in /repo is trusted to the re module's documented
semantics; the replacement functions are the real ones, run by the interpreter on every byte."""
from .common import *          # noqa

WS = z3.Union(z3.Re(zs(' ')), z3.Re(zs('\t')))
RAW = [0, 10, 13, 27]                                  # may never appear raw in a line
SAFE = z3.Intersect(re_range(0, 255), z3.Complement(z3.Union(*[z3.Re(zs(chr(c))) for c in RAW + [32, 9]])))
UNESC = {b'\\': b'\\', b'_': b' ', b'0': b'\0', b'n': b'\n', b'r': b'\r', b'e': b'\x1b', b't': b'\t', b'@': b''}
NOBS = STR.set_re(set(range(256)) - {0x5c} - set(RAW) - {32, 9})
ARG = z3.Star(z3.Union(NOBS, z3.Concat(z3.Re(zs(chr(0x5c))), STR.set_re(set(ord(k) for k in UNESC)))))     # grammar of one raw argument
NAME = z3.Concat(R('alpha'), z3.Star(z3.Union(R('alnum'), z3.Re(zs('-')))))
HEADRE = z3.Concat(NAME, z3.Option(z3.Concat(z3.Re(zs('[')), R('digits'), z3.Re(zs(']')))))
ESCF = z3.Function('escape', z3.StringSort(), z3.StringSort())
UNESCF = z3.Function('unescape', z3.StringSort(), z3.StringSort())


def sub_table(ip, pat, repl):
    """byte -> bytes computed by running the real replacement on each one-byte string."""
    out = {}
    for b in range(256):
        r = ip.call(ip.getattr(pat, 'sub'), [repl, bytes([b])])
        if not isinstance(r, bytes):
            raise Unsupported('replacement is not concrete')
        out[b] = r
    return out


def is_unescape(pat):
    try:
        isb, st, en, nodes = STR.top_level(pat)
    except Unsupported:
        return False
    if not isb or st or en or len(nodes) != 2:
        return False
    (o1, a1), (o2, a2) = nodes
    if str(o1) != 'LITERAL' or a1 != 0x5c or str(o2) != 'SUBPATTERN':
        return False
    sub = list(a2[3])
    return (len(sub) == 1 and str(sub[0][0]) == 'MAX_REPEAT' and sub[0][1][0] == 0 and sub[0][1][1] == 1
            and len(sub[0][1][2]) == 1 and str(sub[0][1][2][0][0]) == 'ANY')


def unesc_table(ip, pat, repl):
    """what the real replacement does for every possible escape character: byte -> bytes | None (raises)."""
    out, excs = {}, {}
    for b in list(range(256)) + [None]:
        s = b'\\' if b is None else bytes([0x5c, b])
        try:
            r = ip.call(ip.getattr(pat, 'sub'), [repl, s])
            if b == 10:      # '.' does not match a newline: r keeps it
                r = None
            out[b] = r
        except PyExc as e:
            out[b] = None
            excs[b] = e.value
    return out, excs


def install(cx):
    """Hooks for escape (one-character class) and unescape (backslash + optional char) substitution."""
    memo = {}

    def key(pat, repl):
        f = repl.func if isinstance(repl, IBound) else repl
        return (id(pat), id(f))

    def re_sub(ip, pat, repl, s):
        if not isinstance(s, SBytes):
            raise Unsupported('re.sub on text')
        if STR.single_char_class(pat) is not None:
            k = key(pat, repl)
            if k not in memo:
                memo[k] = sub_table(ip, pat, repl)
                cx.ghost['esc_table'] = memo[k]
            tab = memo[k]
            e = ESCF(s.t)
            ws = set(tab.values())
            one = set(w[0] for w in ws if len(w) == 1)
            longer = [z3.Re(zs(w)) for w in sorted(ws) if len(w) != 1]
            allw = z3.Union(STR.set_re(one), *longer) if longer else STR.set_re(one)
            cx.axiom('re.sub with a one-character class maps every byte independently',
                     z3.And(z3.InRe(e, z3.Star(allw)),
                            z3.Implies(s.t == zs(''), e == zs('')),
                            z3.BoolVal(True) if b'' in tab.values() else
                            z3.Implies(e == zs(''), s.t == zs(''))))
            return SBytes(e, ('esc', tab, s))
        if is_unescape(pat):
            k = key(pat, repl)
            if k not in memo:
                memo[k] = unesc_table(ip, pat, repl)
            tab, excs = memo[k]
            cx.ghost['unesc_table'] = tab
            if s.info and s.info[0] == 'esc':
                # substitution over a concatenation of code words h(c): each is one literal byte or one escape
                ok = True
                for c, w in s.info[1].items():
                    if len(w) == 1 and w != b'\\':
                        good = w == bytes([c])
                    else:
                        good = len(w) == 2 and w[:1] == b'\\' and tab.get(w[1]) == bytes([c])
                    if not good:
                        ok = False
                        cx.notes.append('byte %d escapes to %r' % (c, w))
                cx.prove('unescape inverts escape on every byte', ok)
                cx.axiom('re.sub with backslash+char maps every code word independently', True)
                if not ok:
                    raise Unsupported('escape table')
                return s.info[2]
            V = [b for b, r in tab.items() if r is not None and b is not None]
            good = z3.Star(z3.Union(STR.set_re(set(range(256)) - {0x5c}),
                                    z3.Concat(z3.Re(zs(chr(0x5c))), STR.set_re(set(V)))))
            if cx.branch(z3.InRe(s.t, good)):
                cx.axiom('re.sub with backslash+char: every match is one escape', True)
                r = UNESCF(s.t)
                cx.add(z3.InRe(r, R('byte*')))
                return SBytes(r, ('unesc', tab, s))
            bad = [b for b in tab if tab[b] is None and b in excs]
            b = cx.pick('bad escape', bad)
            raise PyExc(excs[b])
        raise Unsupported('re.sub pattern %r' % (pat.pattern,))
    cx.ghost['re_sub'] = re_sub

    def join(ip, sep, seq):
        if isinstance(sep, Sym) or not isinstance(sep, bytes):
            raise Unsupported('join separator')
        j = z3.String(cx.name('joined'))
        cx.add(z3.Implies(seq.length == 0, j == zs('')))
        cx.ghost.setdefault('joins', {})[j.get_id()] = (j, sep, seq)
        return SBytes(j, ('join', sep, seq))
    cx.ghost['join'] = join

    def re_split(ip, pat, s):
        isb, st, en, nodes = STR.top_level(pat)
        spec = STR.rep_spec(nodes)
        if st or en or not isb or spec is None or spec[1:] != (1, None):
            raise Unsupported('split pattern')
        W = spec[0]
        wre, nonw = STR.set_re(W), STR.set_re(set(range(256)) - W)
        pieces = STR.flatten(z3.simplify(s.t))
        joins = cx.ghost.get('joins', {})
        if pieces and not isinstance(pieces[-1], str) and pieces[-1].get_id() in joins:
            j, sep, seq = joins[pieces[-1].get_id()]
            head = pieces[:-1]
            sp = []
            while head and isinstance(head[-1], str) and ord(head[-1]) in W:
                sp.append(head.pop())
            headt = [zs(p) if isinstance(p, str) else p for p in head]
            ht = headt[0] if len(headt) == 1 else z3.Concat(*headt)
            if sp and all(c in W for c in sep) and sep and STR.in_star(cx, ht, nonw):
                i = z3.Int(cx.name('splitidx'))
                cx.add(z3.Implies(seq.length > 0, z3.And(i >= 0, i < seq.length)))
                e = seq.at(cx, i)
                et = e.t if isinstance(e, Sym) else zs(e)
                cx.prove('every serialised argument is non-empty and free of separators',
                         z3.Implies(seq.length > 0, z3.And(et != zs(''), z3.InRe(et, z3.Star(nonw)))))
                cx.axiom('splitting head . sep . join(sep, parts) gives back head and parts', True)
                hv = STR.wrap_like(s, ht)
                return SList(SSeq(seq.length + 1, lambda k: hv if z3.is_int_value(k) and k.as_long() == 0
                                  else seq.at(cx, k - 1), 'list', 'split'))
            raise Unsupported('split of a joined line')
        if STR.in_star(cx, s.t, nonw):
            return [s]
        n = z3.Int(cx.name('nparts'))
        lead = []
        for p in pieces:
            if not isinstance(p, str) or ord(p) in W:
                break
            lead.append(p)
        head = tail = z3.String(cx.name('head'))
        if lead:
            head = z3.Concat(zs(''.join(lead)), tail)
        parts = {}

        def elem(k):
            if z3.is_int_value(k) and k.as_long() == 0:
                return SBytes(head)
            p = z3.String(cx.name('part'))
            cx.inputs[str(p)] = ('bytes', p)
            cx.axiom('re.split on runs of separators: pieces are separator-free, inner ones non-empty',
                     z3.And(z3.InRe(p, z3.Star(nonw)), z3.Contains(s.t, p),
                            z3.Implies(z3.And(k > 0, k < n - 1), p != zs('')),
                            z3.Implies(k == 0, p == head)))
            return SBytes(p)
        cx.axiom('re.split on runs of separators: first piece',
                 z3.And(n >= 1, z3.InRe(tail, z3.Star(nonw)), z3.PrefixOf(head, s.t),
                        (n == 1) == (head == s.t),
                        z3.Or(head == s.t, z3.InRe(z3.SubString(s.t, z3.Length(head), 1), wre))))
        seq = SSeq(n, elem, 'list', 'parts')
        cx.ghost['split_parts'] = seq
        cx.ghost['split_head'] = head
        cx.ghost['split_pat'] = W
        return SList(seq)
    cx.ghost['re_split'] = re_split


def arg_seq(cx, name='args'):
    n = cx.int('n' + name)
    cx.add(n.t >= 0)
    return SSeq(n.t, lambda i: cx.bytes('arg'), 'list', name)


def wf_name(cx, base='name'):
    s = cx.str(base)
    cx.add(z3.InRe(s.t, NAME))
    return s


def wf_mid(cx, k=None):
    k = k or cx.pick('mid', ['none', 'bytes'])
    if k == 'none':
        return None
    m = cx.bytes('mid')
    cx.add(z3.InRe(m.t, R('digits')))
    return m


SYMS = {0: b'?', 1: b'!', 2: b'#'}


def seq_of(v):
    return v.seq if isinstance(v, SList) else v


def same_args(cx, tag, a, b):
    """obligations: two argument sequences are equal (length and generic element)."""
    ip = cx.interp
    a, b = seq_of(a), seq_of(b)
    la = a.length if isinstance(a, SSeq) else z3.IntVal(len(a))
    lb = b.length if isinstance(b, SSeq) else z3.IntVal(len(b))
    cx.prove(tag + ': same number of arguments', la == lb)
    if isinstance(a, SSeq) or isinstance(b, SSeq):
        i = z3.Int(cx.name('argidx'))
        if not cx.branch(z3.And(i >= 0, i < la)):
            return
        x = a.at(cx, i) if isinstance(a, SSeq) else None
        y = b.at(cx, i) if isinstance(b, SSeq) else None
        if x is None or y is None:
            raise Unsupported('mixed sequences')
        cx.prove(tag + ': same argument at every position', ip.eq(x, y))
    else:
        cx.prove(tag + ': same arguments', all(ip.eq(x, y) is True for x, y in zip(a, b)))
