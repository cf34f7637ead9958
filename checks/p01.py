"""Wire integers and lengths have one exact encoding."""
from symx.inst import Inst

BOUNDS = 'no bound on the numbers: every integer (and every finite real where floats are allowed); parse buffers of 0-12 bytes'
OUTSIDE = 'floats are mathematical reals (NaN and infinities are checked as the concrete values they are)'

RANGES = dict(b=(-2**7, 2**7), B=(0, 2**8), h=(-2**15, 2**15), H=(0, 2**16), i=(-2**31, 2**31), I=(0, 2**32), q=(-2**63, 2**63), Q=(0, 2**64))
WIDTH = dict(b=1, h=2, i=4, q=8)


def number(h, fmt, big):
    """validate <=> in range; binary is the two's complement of the declared width; parse inverts it"""
    from nbc.protocol import format as F
    t = F.FtNumber(fmt, big_endian=big)
    lo, hi = RANGES[fmt]
    w = WIDTH[fmt.lower()]
    v = h.int('v', None, None)
    r = t.validate(v)
    inr = h.all(v >= lo, v < hi)
    if r is None:
        h.check(h.not_(inr), 'in-range value refused')
        return
    h.check(inr, 'out-of-range value accepted')
    h.check(r == v, 'validate returns the value')
    b = t.binary(r)
    h.check(h.len(b) == w, 'declared width')
    u = h.ite(v < 0, v + 2 ** (8 * w), v)
    h.check(h.eq(b, h.to_be(u, w) if big else h.to_le(u, w)), 'byte order')
    rest = h.bytes('rest', 3)
    n, back = t.parse(h.concat(b, rest))
    h.check(n == w, 'consumed width')
    h.check(back == v, 'parse(binary(v)) == v')


def number_bytes(h, fmt, big):
    """every byte string of the width is the encoding of the value it parses to; shorter ones are refused"""
    from nbc.protocol import format as F
    t = F.FtNumber(fmt, big_endian=big)
    w = WIDTH[fmt.lower()]
    d = h.bytes('d', w)
    n, v = t.parse(d)
    h.check(n == w, 'consumed width')
    h.check(h.all(v >= RANGES[fmt][0], v < RANGES[fmt][1]), 'parsed value in range')
    h.check(h.eq(t.binary(v), d), 'binary(parse(d)) == d')
    for k in range(w):
        st, e = h.call(t.parse, d[:k])
        h.check(st == 'raise', 'truncated number refused')


def number_float(h, fmt, allow):
    from nbc.protocol import format as F
    t = F.FtNumber(fmt, allow_float=allow)
    lo, hi = RANGES[fmt]
    x = h.real('x', -2.0 ** 70, 2.0 ** 70)
    r = t.validate(x)
    if r is None:
        h.check(h.not_(h.all(x >= lo, x < hi)) if allow else True, 'in-range float refused')
        return
    h.check(allow, 'float accepted where only integers are')
    h.check(h.all(x >= lo, x < hi), 'out-of-range float accepted')
    st, b = h.call(t.binary, r)
    h.check(st == 'ok', 'accepted float serialises')
    n, v = t.parse(b)
    # the written integer is x rounded toward zero
    h.check(h.all(h.implies(x >= 0, h.all(v <= x, x < v + 1)), h.implies(x < 0, h.all(v >= x, x > v - 1))), 'float is written as its integer part')


def number_special(h, fmt):
    from nbc.protocol import format as F
    t = F.FtNumber(fmt, allow_float=True)
    h.int('dummy', 0, 1)
    for bad in (float('nan'), float('inf'), float('-inf'), 'x', b'1', None, [], 1j):
        st, r = h.call(t.validate, bad)
        if isinstance(bad, (str, bytes)) or bad is None or isinstance(bad, (list, complex)):
            h.check(st == 'ok' and r is None, 'non-number refused')
        else:
            h.check(st == 'ok' and r is None, 'non-finite float refused')


def varint(h):
    from nbc.protocol import format as F
    v = h.int('v', None, None)
    r = F.FtVarInteger.validate(v)
    inr = h.all(v >= 0, v < 2 ** 64)
    if r is None:
        h.check(h.not_(inr), 'encodable value refused')
        return
    h.check(inr, 'unencodable value accepted')
    b = F.FtVarInteger.binary(v)
    n = h.len(b)
    want = h.ite(v < 0xfd, 1, h.ite(v <= 0xffff, 3, h.ite(v <= 0xffffffff, 5, 9)))
    h.check(want == n, 'shortest form')
    c = h.cells(b)
    if n == 1:
        h.check(c[0] == v, 'one-byte form')
    else:
        h.check(c[0] == {3: 0xfd, 5: 0xfe, 9: 0xff}[n], 'length marker')
        h.check(h.le(b[1:]) == v, 'little-endian value')
    rest = h.bytes('rest', 2)
    m, back = F.FtVarInteger.parse(h.concat(b, rest))
    h.check(m == n, 'consumed length')
    h.check(back == v, 'parse(binary(v)) == v')


def varint_bytes(h, n):
    """arbitrary bytes: the value of the announced form, or an error when cut short"""
    from nbc.protocol import format as F
    d = h.bytes('d', n)
    st, r = h.call(F.FtVarInteger.parse, d)
    if n == 0:
        h.check(st == 'raise', 'nothing to read')
        return
    c0 = h.cells(d)[0]
    need = h.ite(c0 < 0xfd, 1, h.ite(c0 == 0xfd, 3, h.ite(c0 == 0xfe, 5, 9)))
    if st == 'raise':
        h.check(need > n, 'complete integer refused')
        return
    h.check(need <= n, 'truncated integer accepted')
    m, v = r
    h.check(m == need, 'consumed length')
    for k in (1, 3, 5, 9):
        if k <= n:
            h.check(h.implies(need == k, v == (c0 if k == 1 else h.le(d[1:k]))), 'parsed value')


def string_len(h, lo, hi, text):
    """strings and byte strings: shortest length prefix, then the content"""
    from nbc.protocol import format as F
    t = F.FtVarString()
    s = h.blob('s', lo, hi)
    h.check(t.validate(s) is not None, 'bytes accepted')
    b = t.binary(s)
    n = h.len(s)
    p = h.ite(n < 0xfd, 1, h.ite(n <= 0xffff, 3, h.ite(n <= 0xffffffff, 5, 9)))
    h.check(h.len(b) == p + n, 'length prefix and content')
    m, back = t.parse(b)
    h.check(m == p + n, 'consumed length')
    h.check(h.eq(back, s), 'parse(binary(s)) == s')


def array_len(h, count, kind):
    from nbc.protocol import format as F
    t = F.FtArray(F.FtNumber('B') if kind == 'B' else F.FtBytes(2))
    items = [h.byte('i%d' % i) for i in range(min(count, 3))] if kind == 'B' else [h.bytes('i%d' % i, 2) for i in range(min(count, 3))]
    fill = 7 if kind == 'B' else b'ab'
    full = tuple((items + [fill] * count)[:count])
    b = t.binary(full)
    p = 1 if count < 0xfd else 3 if count <= 0xffff else 5
    w = 1 if kind == 'B' else 2
    h.check(h.len(b) == p + count * w, 'count prefix and items')
    if p == 1:
        h.check(h.cells(b[:1])[0] == count, 'count')
    else:
        h.check(h.le(b[1:p]) == count, 'count')
    m, back = t.parse(b)
    h.check(m == p + count * w, 'consumed length')
    h.check(h.len(back) == count, 'item count')
    for i in list(range(min(count, 3))) + [count - 1] * bool(count):
        h.check(h.eq(back[i], full[i]), 'items come back in order')


def instances(tier):
    out = []
    for f in 'bBhHiIqQ':
        for big in (False, True):
            out.append(Inst('number[%s,%s]' % (f, 'be' if big else 'le'), number, dict(fmt=f, big=big)))
            out.append(Inst('number_bytes[%s,%s]' % (f, 'be' if big else 'le'), number_bytes, dict(fmt=f, big=big)))
        for al in (False, True):
            out.append(Inst('number_float[%s,%s]' % (f, al), number_float, dict(fmt=f, allow=al)))
        out.append(Inst('number_special[%s]' % f, number_special, dict(fmt=f)))
    out.append(Inst('varint', varint))
    for n in range(0, 12):
        out.append(Inst('varint_bytes[%d]' % n, varint_bytes, dict(n=n)))
    for lo, hi in ((0, 300), (0, 70000), (0xfb, 0x100), (0xfffd, 0x10002)):
        out.append(Inst('string_len[%d-%d]' % (lo, hi), string_len, dict(lo=lo, hi=hi, text=False)))
    for c in (0, 1, 2, 5, 252, 253, 254, 256) + ((65535, 65536) if tier == 'thorough' else ()):
        for k in ('B', 'bytes'):
            out.append(Inst('array_len[%d,%s]' % (c, k), array_len, dict(count=c, kind=k)))
    return out
