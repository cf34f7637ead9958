"""IP addresses: accepted exactly when valid, stable through the wire."""
from symx.inst import Inst

BOUNDS = ('every 16-byte network form; every sequence of at least 16 arbitrary bytes up to 20; IPv4 text: 1-6 groups, each a number 0 to 10^6 '
          'or 1-4 arbitrary ASCII characters; IPv6 text: 1-10 groups with every placement of empty groups, each a number below 16^6 in hexadecimal '
          'or 1-5 arbitrary ASCII characters; free texts of 0-5 (quick) / 0-6 (thorough) arbitrary ASCII characters')
OUTSIDE = 'non-ASCII text; groups written with superfluous leading zeros may be accepted or refused'
ASSUMPTIONS = []


def wire(h, extra):
    from nbc.protocol.format import FtIPAddress
    d = h.bytes('data', 16 + extra)
    n, text = h.run(FtIPAddress.parse, d)
    h.check(n == 16, '16 bytes consumed')
    st, r = h.call(FtIPAddress.validate, text)
    h.check(st == 'ok' and r is not None, 'a parsed address is accepted')
    st, b = h.call(FtIPAddress().binary, text)
    h.check(st == 'ok', 'a parsed address serialises')
    if st == 'ok':
        h.check(h.eq(b, d[:16]), 'same 16 bytes')


def short(h, n):
    """fewer than 16 bytes: an error, never an address"""
    from nbc.protocol.format import FtIPAddress
    d = h.bytes('data', n)
    st, r = h.call(FtIPAddress.parse, d)
    h.check(st == 'raise', 'truncated address is not parsed')


def _common(h, text, want):
    """want: None when the text is no address, else the 16 bytes; returns after all checks"""
    from nbc.protocol.format import FtIPAddress
    st, r = h.call(FtIPAddress.validate, text)
    h.check(st == 'ok', 'validate does not fail')
    if st != 'ok':
        return
    if want is None:
        h.check(r is None, 'not an address: refused')
        return
    h.check(r is not None, 'an address: accepted')
    if r is None:
        return
    h.check(h.eq(r, text), 'text unchanged')
    st, b = h.call(FtIPAddress().binary, text)
    h.check(st == 'ok', 'accepted address serialises')
    if st != 'ok':
        return
    h.check(h.eq(b, want), 'network form')
    n, t2 = h.run(FtIPAddress.parse, b)
    st, b2 = h.call(FtIPAddress().binary, t2)
    h.check(st == 'ok' and h.eq(b2, want), 'parsing gives the same address')


V4 = b'\0' * 10 + b'\xff\xff'


def v4(h, n, big):
    """n numeric groups"""
    gs = [h.int('g%d' % i, 0, 10 ** 6 if i == big else 300) for i in range(n)]
    text = h.fmt('.'.join(['%d'] * n), *gs)
    ok = n == 4 and bool(h.all(*[g <= 255 for g in gs]))
    _common(h, text, h.concat(V4, *[h.to_be(g, 1) for g in gs]) if ok else None)


def is_hex(h, c):
    return h.any(h.all(c >= 48, c <= 57), h.all(c >= 97, c <= 102), h.all(c >= 65, c <= 70))


def hexv(h, c):
    return h.ite(c <= 57, c - 48, h.ite(c <= 70, c - 55, c - 87))


def v4_chars(h, at, k):
    """one group is k arbitrary characters"""
    t = h.str('t', k)
    cs = h.cells(t)
    parts = ['1', '20', '255', '0']
    s = h.concat(*(['.'.join(parts[:at]) + ('.' if at else '')] + [t] + [''.join('.' + x for x in parts[at + 1:])]))
    if not h.all(*[h.all(c >= 48, c <= 57) for c in cs]):
        # (an extra dot cannot make it valid: there would be five groups; ':' leaves dots behind)
        _common(h, s, None)
        return
    v = 0
    for c in cs:
        v = v * 10 + (c - 48)
    if k == 0:
        _common(h, s, None)
        return
    if k > 1 and cs[0] == 48 :
        _lenient(h, s)
        return
    gs = [int(x) for x in parts]
    gs[at] = v
    if v <= 255:
        _common(h, s, h.concat(V4, *[h.to_be(g, 1) for g in gs]))
    else:
        _common(h, s, None)


def _lenient(h, s):
    """either verdict, but accepted must serialise"""
    from nbc.protocol.format import FtIPAddress
    st, r = h.call(FtIPAddress.validate, s)
    h.check(st == 'ok', 'validate does not fail')
    if st == 'ok' and r is not None:
        st, b = h.call(FtIPAddress().binary, s)
        h.check(st == 'ok' and h.len(b) == 16, 'accepted address serialises')


def v6_want(h, shape, gs):
    """shape: 'x' for a group, '' for an empty group between colons; reference verdict"""
    n = len(shape)
    if n < 3:
        return None
    s = list(shape)
    empt = [i for i, x in enumerate(s) if not x]
    # the text is s joined with ':'; '::' appears at interior empties, or at both first two / last two
    text = ':'.join(s)
    if text.count(':::') or text.count('::') > 1:
        return None
    if text.startswith(':') and not text.startswith('::'):
        return None
    if text.endswith(':') and not text.endswith('::'):
        return None
    k = len(s) - len(empt)
    if '::' in text:
        if k > 7:
            return None
        left = text.split('::')[0].count('x')
        vals = gs[:left] + [0] * (8 - k) + gs[left:]
    else:
        if k != 8:
            return None
        vals = gs
    if not h.all(*[g <= 0xffff for g in vals]):
        return None
    return h.concat(*[h.to_be(g, 2) for g in vals])


def v6(h, shape, big):
    shape = ['x' if c == 'x' else '' for c in shape]
    k = sum(1 for x in shape if x)
    gs = [h.int('g%d' % i, 0, 16 ** 6 - 1 if i == big else 0xffff) for i in range(k)]
    want = v6_want(h, shape, gs)
    text = h.fmt(':'.join('%x' if x else '' for x in shape), *gs)
    _common(h, text, want)


def v6_chars(h, k, tail):
    """the first group is k arbitrary characters, then a fixed rest"""
    t = h.str('t', k)
    cs = h.cells(t)
    h.assume(h.all(*[c != 58 for c in cs]))          # ':' shapes are covered by v6
    s = h.concat(t, tail)
    rest = [''] if tail == '::' else tail[1:].split(':')
    if not h.all(*[is_hex(h, c) for c in cs]):
        _common(h, s, None)
        return
    if k > 1 and cs[0] == 48:
        _lenient(h, s)
        return
    v = 0
    for c in cs:
        v = v * 16 + hexv(h, c)
    vals = [v]
    for r in rest:
        vals += [0] * (9 - 1 - len(rest)) if r == '' else [int(r, 16)]
    _common(h, s, h.concat(*[h.to_be(g, 2) for g in vals]) if v <= 0xffff else None)


def free(h, n):
    """any short text; the verdict of a direct reading of the grammar"""
    t = h.str('t', n)
    cs = h.cells(t)
    from nbc.protocol.format import FtIPAddress
    st, r = h.call(FtIPAddress.validate, t)
    h.check(st == 'ok', 'validate does not fail')
    if st != 'ok':
        return
    if r is not None:
        # shorter than 7 characters: only IPv6 with '::'
        h.check(h.all(*[h.any(is_hex(h, c), c == 58) for c in cs]), 'only digits and colons')
        dd = h.any(*[h.all(cs[i] == 58, cs[i + 1] == 58) for i in range(n - 1)]) if n > 1 else False
        h.check(dd, 'a short address has a double colon')
        pairs = 0
        for i in range(n - 1):
            pairs = pairs + h.ite(h.all(cs[i] == 58, cs[i + 1] == 58), 1, 0)
        h.check(pairs == 1, 'exactly one double colon')
        if n:
            h.check(h.implies(cs[0] == 58, cs[1] == 58) if n > 1 else h.not_(cs[0] == 58), 'no single leading colon')
            h.check(h.implies(cs[-1] == 58, cs[-2] == 58) if n > 1 else h.not_(cs[-1] == 58), 'no single trailing colon')
        st, b = h.call(FtIPAddress().binary, t)
        h.check(st == 'ok' and h.len(b) == 16, 'accepted address serialises')
    else:
        # not refused without reason: '::' with at most 4 hex digits on each side
        if n >= 2:
            for i in range(n - 1):
                if i <= 4 and n - 2 - i <= 4:
                    good = h.all(cs[i] == 58, cs[i + 1] == 58, *[is_hex(h, c) for c in cs[:i] + cs[i + 2:]])
                    h.check(h.not_(good), 'a valid short address is accepted')


def not_text(h, kind):
    from nbc.protocol.format import FtIPAddress
    obj = {'int': lambda: h.int('v', None, None), 'bytes': lambda: h.bytes('b', 7), 'none': lambda: None,
           'list': lambda: ['1.2.3.4'], 'v4bytes': lambda: b'1.2.3.4', 'float': lambda: 1.2}[kind]()
    st, r = h.call(FtIPAddress.validate, obj)
    h.check(st == 'ok' and r is None, 'not a text: refused')


def instances(tier):
    T = tier == 'thorough'
    out = []
    for e in (0, 1, 4):
        out.append(Inst('wire[+%d]' % e, wire, dict(extra=e), cost=20))
    for n in (0, 2, 11, 12, 13, 15):
        out.append(Inst('short[%d]' % n, short, dict(n=n)))
    for n in range(1, 7):
        for big in range(n):
            out.append(Inst('v4[%d,%d]' % (n, big), v4, dict(n=n, big=big), cost=n))
    for at in range(4):
        for k in range(0, 5 if T else 4):
            out.append(Inst('v4_chars[%d,%d]' % (at, k), v4_chars, dict(at=at, k=k), cost=k))
    shapes = set()
    for n in range(1, 11):
        shapes.add('x' * n)
        for i in range(n):
            s = list('x' * n)
            s[i] = '-'
            shapes.add(''.join(s))
            if i + 1 < n:
                s[i + 1] = '-'
                shapes.add(''.join(s))
        if n >= 3:
            shapes |= {'--' + 'x' * (n - 4) + '--' if n >= 4 else '---', '-' + 'x' * (n - 2) + '-', '---' + 'x' * (n - 3), 'x' * (n - 3) + '---',
                       '-' * n, 'x-x-x' + 'x' * (n - 5) if n >= 5 else 'x--'}
    for s in sorted(shapes):
        k = s.count('x')
        for big in ({0, k // 2, k - 1} - {-1} if k and (T or k in (1, 7, 8)) else {0}):
            out.append(Inst('v6[%s,%d]' % (s, big), v6, dict(shape=s, big=big), cost=2))
    for tail in ('::', ':0:1:ffff:2:3:4:5', '::8', ':1:2::3'):
        for k in range(1, 6 if T else 5):
            out.append(Inst('v6_chars[%d,%s]' % (k, tail), v6_chars, dict(k=k, tail=tail), cost=k * 3))
    for n in range(0, 7 if T else 6):
        out.append(Inst('free[%d]' % n, free, dict(n=n), cost=n * 5))
    for k in ('int', 'bytes', 'none', 'list', 'v4bytes', 'float'):
        out.append(Inst('not_text[%s]' % k, not_text, dict(kind=k)))
    return out
