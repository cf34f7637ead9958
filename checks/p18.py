"""DER encodings round-trip and malformed DER is refused."""
from symx.inst import Inst
import ecmodel

BOUNDS = ('integers of 0-66 bytes (every value of each length), strings of 0-3, 126-130, 254-258 and 65535-65537 bytes with any content and up to three '
          'bytes after them, object identifiers of up to four arcs below 2^35, arbitrary buffers of up to 8 bytes (thorough: 10) for every decoder, '
          'fixed-length signatures of any bytes, shortened private keys, signatures and keys of all six curves with every number below the order')
OUTSIDE = 'PEM armour; point arithmetic (P21), an abstract group here'
ASSUMPTIONS = ['the curve group as its discrete logarithms; coordinates are uninterpreted functions of them']


def hdr(tag, n):
    if n < 128:
        return bytes([tag, n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([tag, 128 | len(b)]) + b


def int_body(h, v, nbytes):
    """minimal two's complement body of v, 256^(nbytes-1) <= v < 256^nbytes (nbytes 1 includes 0); forks"""
    b = h.to_be(v, nbytes)
    return h.concat(b'\0', b) if h.cells(b)[0] >= 128 else b


def integer(h, nbytes, rest):
    from nbc.util.ecdsa import der
    v = h.int('v', 256 ** (nbytes - 1) if nbytes > 1 else 0, 256 ** nbytes - 1)
    tail = h.bytes('rest', rest)
    st, e = h.call(der.encode_integer, v)
    h.check(st == 'ok', 'every non-negative integer encodes')
    if st != 'ok':
        return
    body = int_body(h, v, nbytes)
    want = h.concat(hdr(2, h.len(body)), body)
    h.check(h.eq(e, want), 'the DER form')
    st, r = h.call(der.remove_integer, h.concat(e, tail))
    h.check(st == 'ok', 'it decodes')
    if st == 'ok':
        h.check(r[0] == v, 'the same integer')
        h.check(h.eq(r[1], tail), 'the rest of the input untouched')


STR = {'octet_string': 4, 'bitstring': 3, 'sequence': 0x30, 'constructed': None}


def string(h, kind, n, rest):
    from nbc.util.ecdsa import der
    s, tail = h.noise('s', n), h.noise('rest', rest)
    if kind == 'constructed':
        tag = h.int('tag', 0, 31)
        st, e = h.call(der.encode_constructed, tag, s)
        head = h.concat(h.to_be(160 + tag, 1), hdr(0, n)[1:])
    elif kind == 'sequence':
        k = n // 3
        st, e = h.call(der.encode_sequence, s[:k], b'', s[k:])
        head = hdr(0x30, n)
    else:
        st, e = h.call(getattr(der, 'encode_' + kind), s)
        head = hdr(STR[kind], n)
    h.check(st == 'ok', 'it encodes')
    if st != 'ok':
        return
    h.check(h.eq(e, h.concat(head, s)), 'the DER form')
    st, r = h.call(getattr(der, 'remove_' + kind), h.concat(e, tail))
    h.check(st == 'ok', 'it decodes')
    if st == 'ok':
        if kind == 'constructed':
            h.check(r[0] == tag, 'the same tag')
            r = r[1:]
        h.check(h.eq(r[0], s), 'the same content')
        h.check(h.eq(r[1], tail), 'the rest of the input untouched')


def length(h, bits):
    """lengths on their own, far beyond buffers one can hold"""
    from nbc.util.ecdsa import der
    n = h.int('n', 0 if bits == 7 else 2 ** (bits - 8) if bits > 8 else 128, 2 ** bits - 1)
    e = h.run(der.encode_length, n)
    if bits == 7:
        want = h.to_be(n, 1)
    else:
        want = h.concat(bytes([128 | bits // 8]), h.to_be(n, bits // 8))
    h.check(h.eq(e, want), 'the shortest definite form')
    tail = h.bytes('rest', 2)
    st, r = h.call(der.read_length, h.concat(e, tail))
    h.check(st == 'ok' and h.all(r[0] == n, r[1] == h.len(e)), 'the same length and its size')


def b128(h, v, k):
    """v in k groups of seven bits"""
    return [h.run(lambda: v // 128 ** (k - 1 - i) % 128) + (128 if i < k - 1 else 0) for i in range(k)]


def oid(h, sizes, rest):
    from nbc.util.ecdsa import der
    a, b = h.int('first', 0, 2), h.int('second', 0, 39)
    arcs = [h.int('arc%d' % i, 128 ** (k - 1) if k > 1 else 0, 128 ** k - 1) for i, k in enumerate(sizes)]
    st, e = h.call(der.encode_oid, a, b, *arcs)
    h.check(st == 'ok', 'it encodes')
    if st != 'ok':
        return
    cells = [40 * a + b]
    for v, k in zip(arcs, sizes):
        cells += b128(h, v, k)
    body = h.from_cells('b', cells)
    h.check(h.eq(e, h.concat(hdr(6, len(cells)), body)), 'the DER form')
    tail = h.bytes('rest', rest)
    st, r = h.call(der.remove_object, h.concat(e, tail))
    h.check(st == 'ok', 'it decodes')
    if st == 'ok':
        h.check(len(r[0]) == 2 + len(arcs) and h.all(*[x == y for x, y in zip(r[0], [a, b] + arcs)]), 'the same object identifier')
        h.check(h.eq(r[1], tail), 'the rest of the input untouched')


def ref_head(h, c, tag_ok):
    """(header length, content length) of the first element, or None; definite lengths of any form; forks"""
    if not c or not tag_ok(c[0]) or len(c) < 2:
        return None
    if c[1] < 128:
        return 2, c[1]
    k = c[1] - 128
    n = None
    for i in range(1, 127):
        if i > len(c) - 2:
            break
        if k == i:
            n = i
            break
    if n is None:
        return None
    v = 0
    for x in c[2:2 + n]:
        v = v * 256 + x
    return 2 + n, v


def anything(h, dec, n):
    """arbitrary bytes: a value within the buffer, or the DER error"""
    from nbc.util.ecdsa import der
    data = h.bytes('d', n)
    c = h.cells(data)
    f = dict(liberal='ecc').get(dec)
    if f:
        from nbc.util import ecc
        st, r = h.call(ecc.remove_integer, data)
    else:
        st, r = h.call(getattr(der, 'remove_' + dec), data)
    if st == 'raise':
        h.check(isinstance(r, der.UnexpectedDER), 'the DER error, not %s' % type(r).__name__)
    tags = dict(integer=2, liberal=2, octet_string=4, bitstring=3, sequence=0x30, object=6)
    ok = (lambda t: h.all(t >= 160, t <= 191)) if dec == 'constructed' else (lambda t: t == tags[dec])
    hd = ref_head(h, c, lambda t: bool(ok(t)))
    body = None
    if hd is not None:
        for m in range(0, n - hd[0] + 1):
            if hd[1] == m:
                body = c[hd[0]:hd[0] + m]
                rest = c[hd[0] + m:]
                break
    if body is None:
        h.check(st == 'raise', 'no element here: refused')
        return
    if dec in ('integer', 'liberal'):
        bad = not body or dec == 'integer' and body[0] >= 128
        if bad:
            h.check(st == 'raise', 'not a non-negative integer: refused')
            return
        want = 0
        for x in body:
            want = want * 256 + x
    elif dec == 'object':
        arcs, cur = [], 0
        for i, x in enumerate(body):
            if x >= 128:
                cur = cur * 128 + (x - 128)
                if i == len(body) - 1:
                    arcs = None
                    break
            else:
                arcs.append(cur * 128 + x)
                cur = 0
        if not arcs:
            h.check(st == 'raise', 'not an object identifier: refused')
            return
    h.check(st == 'ok', 'a complete element is decoded')
    if st != 'ok':
        return
    h.check(h.eq(r[-1], h.from_cells('b', rest)), 'the rest of the input untouched')
    if dec in ('integer', 'liberal'):
        h.check(r[0] == want, 'the integer in the buffer')
    elif dec == 'object':
        h.check(len(r[0]) == len(arcs) + 1, 'as many arcs')
        h.check(h.all(*[x == y for x, y in zip(r[0][2:], arcs[1:])]), 'the arcs in the buffer')
        if arcs[0] < 120:
            h.check(h.all(r[0][0] == h.run(lambda: arcs[0] // 40), r[0][1] == h.run(lambda: arcs[0] % 40)), 'the first two arcs')
    else:
        if dec == 'constructed':
            h.check(r[0] == c[0] - 160, 'the tag in the buffer')
        h.check(h.eq(r[-2], h.from_cells('b', body)), 'the content in the buffer')


# ------------------------------------------------------------------ signatures
def orders():
    from nbc.util.ecdsa import curves
    return {c.name: c for c in curves.curves}


def signature(h, curve, form, canon):
    from nbc.util.ecdsa import util
    c = orders()[curve]
    n, L = c.order, c.baselen
    if form == 'der':
        # every length of the two numbers is its own case
        k1, k2 = h.choice('rlen', [L] if canon else [1, 2, L - 1, L]), h.choice('slen', [1, L - 1, L])
        r = h.int('r', 256 ** (k1 - 1), min(n, 256 ** k1) - 1)
        s = h.int('s', 256 ** (k2 - 1), min(n, 256 ** k2) - 1)
    else:
        r, s = h.scalar('r', n), h.scalar('s', n)
    enc = getattr(util, 'sigencode_' + form + ('_canonize' if canon else ''))
    st, e = h.call(enc, r, s, n)
    h.check(st == 'ok', 'it encodes')
    if st != 'ok':
        return
    want = s
    if canon and s > n // 2:
        want = n - s
    if form == 'strings':
        h.check(h.eq(e[0], h.to_be(r, L)), 'r in the length of the order')
        h.check(h.eq(e[1], h.to_be(want, L)), 's in the length of the order')
    elif form == 'string':
        h.check(h.eq(e, h.concat(h.to_be(r, L), h.to_be(want, L))), 'both in the length of the order')
    dec = getattr(util, 'sigdecode_' + form)
    st, v = h.call(dec, e, n)
    h.check(st == 'ok', 'it decodes')
    if st == 'ok':
        h.check(v[0] == r, 'the same r')
        h.check(v[1] == want, 'the same s, or its negative when that is to be low')


def sig_junk(h, n):
    """arbitrary bytes as a DER signature"""
    from nbc.util.ecdsa import util, der
    data = h.bytes('d', n)
    st, v = h.call(util.sigdecode_der, data, 2 ** 255 + 95)
    if st == 'raise':
        h.check(isinstance(v, der.UnexpectedDER), 'the DER error, not %s' % type(v).__name__)
    else:
        e = h.run(util.sigencode_der, v[0], v[1], 2 ** 255 + 95)
        h.check(h.len(e) <= n, 'no longer than what it was decoded from')


def sig_tail(h, where):
    """bytes after the signature or inside it"""
    from nbc.util.ecdsa import util, der
    r, s = h.int('r', 1, 127), h.int('s', 1, 127)
    j = h.bytes('junk', 1)
    body = h.concat(b'\2\1', h.to_be(r, 1), b'\2\1', h.to_be(s, 1))
    d = h.concat(b'\x30\6', body, j) if where == 'after' else h.concat(b'\x30\7', body, j)
    st, v = h.call(util.sigdecode_der, d, 2 ** 255 + 95)
    h.check(st == 'raise' and isinstance(v, der.UnexpectedDER), 'trailing bytes are refused')


def sig_plain(h, curve, form, n):
    """fixed-length signatures: whatever two numbers the bytes hold; another length is refused"""
    from nbc.util.ecdsa import util
    c = orders()[curve]
    L = c.baselen
    a, b = h.bytes('a', n[0]), h.bytes('b', n[1])
    if form == 'string':
        st, v = h.call(util.sigdecode_string, h.concat(a, b), c.order)
        fits = n[0] + n[1] == 2 * L
    else:
        st, v = h.call(util.sigdecode_strings, (a, b), c.order)
        fits = n == (L, L)
    h.check((st == 'ok') == fits, 'decoded when it has the length of two numbers of the order')
    if st == 'ok' and fits:
        h.check(h.all(v[0] == h.be(a), v[1] == h.be(b)), 'the two numbers')


# ------------------------------------------------------------------ keys
def key_short(h, curve, n):
    """a DER private key whose number has its leading zero bytes left out"""
    from nbc.util.ecdsa import keys as K, der
    c = orders()[curve]
    ec = ecmodel.EC(h, c)
    L = c.baselen
    kb = h.bytes('k', n)
    k = h.be(kb)
    h.assume(k >= 1)
    if n >= L:
        h.assume(k < c.order)
    body = h.concat(b'\2\1\1', hdr(4, n), kb, hdr(0xa0, len(c.encoded_oid)), c.encoded_oid)
    st, sk = h.call(K.SigningKey.from_der, h.concat(hdr(0x30, h.len(body)), body))
    h.check(st == 'ok', 'it imports')
    if st == 'ok':
        h.check(sk.curve is c and sk.privkey.secret_multiplier == k, 'the same private key')


def keys(h, curve, form, small):
    from nbc.util.ecdsa import keys as K, der
    c = orders()[curve]
    ec = ecmodel.EC(h, c)
    k = h.int('k', 1, 255) if small else h.scalar('k', c.order)
    st, sk = h.call(K.SigningKey.from_secret_exponent, k, curve=c)
    h.check(st == 'ok', 'every private key')
    if st != 'ok':
        return
    x, y = ec.xy(k)
    L = c.baselen
    point = h.concat(h.to_be(x, L), h.to_be(y, L))
    vk = h.run(sk.get_verifying_key)
    if form == 'string':
        e = h.run(sk.to_string)
        h.check(h.eq(e, h.to_be(k, L)), 'the private key in the length of the order')
        st, sk2 = h.call(K.SigningKey.from_string, e, curve=c)
        v = h.run(vk.to_string)
        h.check(h.eq(v, point), 'both coordinates')
        st2, vk2 = h.call(K.VerifyingKey.from_string, v, curve=c)
    else:
        e = h.run(sk.to_der)
        priv = h.concat(b'\2\1\1', hdr(4, L), h.to_be(k, L), hdr(0xa0, len(c.encoded_oid)), c.encoded_oid,
                        hdr(0xa1, len(hdr(3, 2 * L + 2)) + 2 * L + 2), hdr(3, 2 * L + 2), b'\0\4', point)
        h.check(h.eq(e, h.concat(hdr(0x30, h.len(priv)), priv)), 'the DER private key')
        st, sk2 = h.call(K.SigningKey.from_der, e)
        v = h.run(vk.to_der)
        ids = b'\x06\x07\x2a\x86\x48\xce\x3d\x02\x01' + c.encoded_oid
        pub = h.concat(hdr(0x30, len(ids)), ids, hdr(3, 2 * L + 2), b'\0\4', point)
        h.check(h.eq(v, h.concat(hdr(0x30, h.len(pub)), pub)), 'the DER public key')
        st2, vk2 = h.call(K.VerifyingKey.from_der, v)
    h.check(st == 'ok' and st2 == 'ok', 'both import back')
    if st == 'ok':
        h.check(sk2.curve is c and sk2.privkey.secret_multiplier == k, 'the same private key')
        h.check(h.eq(h.run(h.run(sk2.get_verifying_key).to_string), point), 'with its public key')
    if st2 == 'ok':
        h.check(vk2.curve is c and h.eq(h.run(vk2.to_string), point), 'the same public key')


def key_junk(h, which, n):
    """arbitrary bytes as a key: refused"""
    from nbc.util.ecdsa import keys as K, der
    data = h.bytes('d', n)
    st, v = h.call(getattr(K, which).from_der, data)
    h.check(st == 'raise', 'no key fits in so few bytes')


def instances(tier):
    deep = tier == 'thorough'
    out = []
    for n in range(1, 67) if deep else (1, 2, 3, 4, 24, 31, 32, 33, 48, 66):
        out.append(Inst('integer[%d]' % n, integer, dict(nbytes=n, rest=0 if n % 2 else 3)))
    out.append(Inst('integer[127]', integer, dict(nbytes=127, rest=1), cost=5))
    out.append(Inst('integer[128]', integer, dict(nbytes=128, rest=1), cost=5))
    for k in STR:
        for n in (0, 1, 2, 3, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258) + ((65535, 65536, 65537) if deep or k == 'sequence' else ()):
            out.append(Inst('%s[%d]' % (k, n), string, dict(kind=k, n=n, rest=n % 4), cost=1 + n // 20000))
    for b in (7, 8, 16, 24, 32, 40, 64):
        out.append(Inst('length[%d]' % b, length, dict(bits=b)))
    for sizes in [(), (1,), (2,), (3,), (4,), (5,), (1, 1), (2, 3), (1, 2, 3, 1)]:
        out.append(Inst('oid%s' % list(sizes), oid, dict(sizes=sizes, rest=len(sizes) % 3), cost=3))
    for d in ('integer', 'liberal', 'octet_string', 'bitstring', 'sequence', 'constructed', 'object'):
        for n in range(0, 11 if deep else 7 if d == 'object' else 9):
            out.append(Inst('anything[%s,%d]' % (d, n), anything, dict(dec=d, n=n), cost=n * n))
    for c in ('NIST192p', 'NIST224p', 'NIST256p', 'NIST384p', 'NIST521p', 'SECP256k1'):
        for f in ('strings', 'string', 'der'):
            for canon in (False, True):
                if f == 'der' and canon and not deep and c not in ('NIST521p', 'SECP256k1'):
                    continue
                out.append(Inst('signature[%s,%s,%s]' % (c, f, canon), signature, dict(curve=c, form=f, canon=canon), cost=4, branch_ms=1500))
        for f in ('string', 'der'):
            out.append(Inst('keys[%s,%s]' % (c, f), keys, dict(curve=c, form=f, small=False), cost=20, branch_ms=1500))
            if c in ('NIST521p', 'SECP256k1'):
                out.append(Inst('keys[%s,%s,small]' % (c, f), keys, dict(curve=c, form=f, small=True), cost=20, branch_ms=1500))
        L = dict(NIST192p=24, NIST224p=28, NIST256p=32, NIST384p=48, NIST521p=66, SECP256k1=32)[c]
        for f in ('strings', 'string'):
            for n in ((L, L), (L - 1, L), (L, L + 1), (0, 0)):
                out.append(Inst('sig_plain[%s,%s,%d,%d]' % ((c, f) + n), sig_plain, dict(curve=c, form=f, n=n), cost=2))
        for n in (1, L // 2, L - 1, L):
            if deep or c in ('NIST192p', 'NIST521p', 'SECP256k1'):
                out.append(Inst('key_short[%s,%d]' % (c, n), key_short, dict(curve=c, n=n), cost=10, branch_ms=1500))
    for n in range(0, 9 if deep else 7):
        out.append(Inst('sig_junk[%d]' % n, sig_junk, dict(n=n), cost=n * n))
    for w in ('after', 'inside'):
        out.append(Inst('sig_tail[%s]' % w, sig_tail, dict(where=w)))
    for w in ('SigningKey', 'VerifyingKey'):
        for n in range(0, 6 if deep else 5):
            out.append(Inst('key_junk[%s,%d]' % (w, n), key_junk, dict(which=w, n=n), cost=n))
    return out
