"""Independent statement of the katcp message grammar (the oracle of C01/C02/C08)."""
import re
TYPES = {b'?': 0, b'!': 1, b'#': 2}
ESC = {0x5c: b'\\\\', 0x20: b'\\_', 0x00: b'\\0', 0x0a: b'\\n', 0x0d: b'\\r', 0x1b: b'\\e', 0x09: b'\\t'}
UNESC = {ord('\\'): b'\\', ord('_'): b' ', ord('0'): b'\0', ord('n'): b'\n', ord('r'): b'\r', ord('e'): b'\x1b',
         ord('t'): b'\t', ord('@'): b''}
HEAD = re.compile(br'([a-zA-Z][a-zA-Z0-9-]*)(?:\[([0-9]+)\])?')


def spec_parse(line):
    """(mtype, name, mid, args) or None when the line is outside the grammar."""
    if line[:1] not in TYPES:
        return None
    toks = []
    cur = bytearray()
    for c in line[1:]:
        if c in (0x20, 0x09):
            toks.append(bytes(cur))
            cur = bytearray()
        else:
            cur.append(c)
    toks.append(bytes(cur))
    head, rest = toks[0], [x for x in toks[1:] if x]
    m = HEAD.fullmatch(head)
    if not m:
        return None
    args = []
    for a in rest:
        out = bytearray()
        i = 0
        while i < len(a):
            c = a[i]
            if c in (0, 10, 13, 0x1b):
                return None
            if c == 0x5c:
                if i + 1 >= len(a) or a[i + 1] not in UNESC:
                    return None
                out += UNESC[a[i + 1]]
                i += 2
            else:
                out.append(c)
                i += 1
        args.append(bytes(out))
    return (TYPES[line[:1]], m.group(1).decode('ascii'), m.group(2), args)


def spec_serialise(mtype, name, mid, args):
    out = {v: k for k, v in TYPES.items()}[mtype] + name.encode('ascii')
    if mid is not None:
        out += b'[' + mid + b']'
    for a in args:
        out += b' ' + (b''.join(ESC.get(c, bytes([c])) for c in a) or b'\\@')
    return out
