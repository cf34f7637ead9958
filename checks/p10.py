"""Base58 / Base58Check: lossless, canonical, checksum-verified."""
from symx.inst import Inst

B58 = b'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'

BOUNDS = ('round trip and canonical form: byte strings of length 0-8, 16, 20, 25, 37, 40 (quick), 0-40, 78, 82 (thorough); checked codec: payload '
          'lengths 0-3, 21, 33, 34, 36, 78; decoding of arbitrary texts (any byte values): lengths 0-3 (quick) / 0-5 (thorough); '
          'SHA-256 is an uninterpreted function (congruence only)')
OUTSIDE = 'longer inputs; real SHA-256 collisions'
ASSUMPTIONS = ['hash functions are deterministic functions of their input bytes']


def roundtrip(h, n):
    from nbc.util import base58
    data = h.bytes('data', n)
    text = base58.b58encode(data)
    h.check(h.eq(base58.b58decode(text), data), 'decode(encode(x)) == x')


def zeros_then(h, z, n):
    """z leading zero bytes, then a non-zero byte, then anything"""
    from nbc.util import base58
    body = h.bytes('data', n)
    if n:
        h.assume(h.cells(body)[0] != 0)
    data = h.concat(b'\0' * z, body)
    text = base58.b58encode(data)
    h.check(h.eq(base58.b58decode(text), data), 'decode(encode(x)) == x with leading zeros')
    cs = h.cells(text)
    h.check(len(cs) >= z, 'one 1 per leading zero byte')
    for i in range(z):
        h.check(cs[i] == 0x31, 'one 1 per leading zero byte')
    if n:
        h.check(len(cs) > z and h.not_(cs[z] == 0x31), 'no further 1 in front of the number')
    else:
        h.check(len(cs) == z, 'nothing after the leading ones')


def canonical(h, n):
    """the text is the standard big-endian base-58 number"""
    from nbc.util import base58
    data = h.bytes('data', n)
    text = base58.b58encode(data)
    v = 0
    for c in h.cells(text):
        st, d = h.call(B58.index, c)
        h.check(st == 'ok', 'only alphabet characters')
        v = v * 58 + d
    h.check(v == h.be(data), 'the digits are the base-58 digits of the number')


def check_roundtrip(h, n, fmt):
    from nbc.util import base58
    data = h.bytes('data', n)
    text = base58.encode_check(data)
    h.check(h.eq(base58.decode_check(text), data), 'decode_check(encode_check(x)) == x')
    if fmt:
        h.check(h.eq(text, base58.b58encode(h.concat(data, h.sha('sha256', h.sha('sha256', data))[:4]))), 'payload followed by 4 checksum bytes')


def check_verdict(h, n):
    """any decoded content: the payload comes back exactly when the checksum is right"""
    from nbc.util import base58
    data = h.bytes('data', n)
    text = base58.b58encode(data)
    st, r = h.call(base58.decode_check, text)
    h.check(st == 'ok', 'decode_check does not fail')
    if st != 'ok':
        return
    want = h.sha('sha256', h.sha('sha256', data[:-4]))[:4]
    good = h.eq(want, data[-4:])
    if r is None:
        h.check(h.not_(good), 'refused only when the checksum is wrong')
    else:
        h.check(h.all(good, h.eq(r, data[:-4])), 'accepted only with the right checksum, payload intact')


def decode_any(h, n, as_text):
    """arbitrary text: characters outside the alphabet are refused, others decode to the number"""
    from nbc.util import base58
    raw = h.str('text', n, lo=0, hi=255) if as_text else h.bytes('text', n)
    st, r = h.call(base58.b58decode, raw)
    cs = h.cells(raw)
    ok = h.all(*[h.any(*[c == x for x in B58]) for c in cs]) if cs else True
    if st == 'raise':
        h.check(isinstance(r, ValueError), 'bad text raises ValueError')
        h.check(h.not_(ok), 'only text outside the alphabet is refused')
        return
    h.check(ok, 'text outside the alphabet is refused')
    v, lead, zs = 0, True, 0
    for c in cs:
        v = v * 58 + h.run(B58.index, c)
    h.check(h.be(r) == v if h.len(r) else v == 0, 'decoded bytes are the base-58 number')
    h.check(h.eq(h.run(base58.b58encode, r), raw if not as_text else h.from_cells('b', cs)), 'encode(decode(t)) == t')


def instances(tier):
    out = []
    T = tier == 'thorough'
    lens = list(range(0, 41)) + [78, 82] if T else list(range(0, 9)) + [16, 20, 25, 37, 40]
    for n in lens:
        out.append(Inst('roundtrip[%d]' % n, roundtrip, dict(n=n), cost=n))
    for z, n in [(0, 1), (1, 0), (3, 0), (1, 1), (2, 2), (1, 24), (2, 10), (5, 3)] + ([(z, n) for z in (0, 1, 4, 20) for n in (1, 5, 20)] if T else []):
        out.append(Inst('zeros_then[%d,%d]' % (z, n), zeros_then, dict(z=z, n=n), cost=n))
    for n in lens:
        if n <= 40:
            out.append(Inst('canonical[%d]' % n, canonical, dict(n=n), cost=n))
    for n in (0, 1, 2, 3, 21, 33, 34, 36, 78):
        out.append(Inst('check_roundtrip[%d]' % n, check_roundtrip, dict(n=n, fmt=n < 30 or (T and n < 50)), cost=n))
    for n in (4, 5, 8, 25, 37, 38) + ((40, 82) if T else ()):
        out.append(Inst('check_verdict[%d]' % n, check_verdict, dict(n=n), cost=n))
    for n in range(0, 6 if T else 4):
        for t in (False, True):
            out.append(Inst('decode_any[%d,%s]' % (n, 'str' if t else 'bytes'), decode_any, dict(n=n, as_text=t), cost=n * 5))
    return out
