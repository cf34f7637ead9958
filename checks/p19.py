"""Deterministic nonces follow RFC 6979."""
from symx.inst import Inst
import ecmodel

BOUNDS = ('every private key and digest, group orders of 4, 7, 8, 9, 12, 15, 16, 17, 159-163, 192, 224, 249, 256, 384 and 521 bits, '
          'SHA-1/224/256/384/512, digests of the length of the hash and others (1-66 bytes), up to two rejected candidates (thorough: four)')
OUTSIDE = 'HMAC itself, an arbitrary function of key and message here; more rejected candidates'
ASSUMPTIONS = ['HMAC is a deterministic function of its key and message bytes']

ORDERS = {4: 13, 7: 101, 8: 251, 9: 257, 12: 4093, 15: 32749, 16: 65521, 17: 65537,
          159: 2 ** 158 + 7, 160: 2 ** 160 - 47, 161: 2 ** 160 + 7, 163: 0x4000000000000000000020108A2E0CC0D99F8A5EF, 249: 2 ** 248 + 9}


def order_of(name):
    from nbc.util.ecdsa import curves
    if isinstance(name, int):
        return ORDERS[name]
    return getattr(curves, name).order


def bits2int(h, data, qlen):
    """leftmost qlen bits"""
    v, blen = h.be(data), 8 * h.len(data)
    return h.run(lambda: v // 2 ** (blen - qlen)) if blen > qlen else v


def reference(h, q, x, alg, h1, tries):
    """the candidates of RFC 6979 section 3.2, in turn"""
    qlen = q.bit_length()
    rlen = (qlen + 7) // 8
    hlen = h.len(h.hmac(alg, b'', b''))
    z = bits2int(h, h1, qlen)
    if z >= q:
        z = z - q
    bx = h.concat(h.to_be(x, rlen), h.to_be(z, rlen))
    V, K = b'\1' * hlen, b'\0' * hlen
    K = h.hmac(alg, K, h.concat(V, b'\0', bx))
    V = h.hmac(alg, K, V)
    K = h.hmac(alg, K, h.concat(V, b'\1', bx))
    V = h.hmac(alg, K, V)
    for i in range(tries):
        T = b''
        while h.len(T) < rlen:
            V = h.hmac(alg, K, V)
            T = h.concat(T, V)
        yield bits2int(h, T, qlen)
        K = h.hmac(alg, K, h.concat(V, b'\0'))
        V = h.hmac(alg, K, V)


class Group(object):
    def __init__(self, n):
        self.n = n

    def order(self):
        return self.n


def expected(h, q, x, alg, h1, rejected):
    for i, k in enumerate(reference(h, q, x, alg, h1, rejected + 1)):
        if h.all(k >= 1, k < q):
            return k
    h.assume(False)          # more rejections than this run looks at


def nonce(h, order, alg, n, rejected):
    import hashlib
    from nbc.util.ecdsa import rfc6979
    q = order_of(order)
    x = h.int('x', 1, q - 1) if q < 2 ** 20 else h.scalar('x', q)
    h1 = h.bytes('h1', n)
    want = expected(h, q, x, alg, h1, rejected)
    st, k = h.call(rfc6979.generate_k, Group(q), x, getattr(hashlib, alg), h1)
    h.check(st == 'ok', 'a nonce')
    if st == 'ok':
        h.check(h.all(k >= 1, k < q), 'in [1, n-1]')
        h.check(k == want, 'the nonce of RFC 6979')


def signing(h, how):
    """deterministic signing uses that nonce, key and digest"""
    import hashlib
    from nbc.util.ecdsa import keys, ecdsa, SECP256k1
    ec = ecmodel.EC(h)
    q = SECP256k1.order
    x = h.scalar('x', q)
    sk = h.run(keys.SigningKey.from_secret_exponent, x, curve=SECP256k1, hashfunc=hashlib.sha1)
    used = []

    def sign(self, number, k):
        used.append((self.secret_multiplier, number, k))
        return ecdsa.Signature(5, 6)
    h.stub(ecdsa.Private_key, 'sign', sign)
    enc = lambda r, s, order: (r, s, order)
    if how == 'digest':
        d, alg = h.bytes('d', 32), 'sha256'
        want = expected(h, q, x, alg, d, 0)
        st, r = h.call(sk.sign_digest_deterministic, d, hashfunc=hashlib.sha256, sigencode=enc)
    else:
        data, alg = h.noise('data', 20), 'sha256' if how == 'data' else 'sha1'
        d = h.sha(alg, data)
        want = expected(h, q, x, alg, d, 0)
        kw = dict(hashfunc=hashlib.sha256) if how == 'data' else {}
        st, r = h.call(sk.sign_deterministic, data, sigencode=enc, **kw)
    h.check(st == 'ok' and len(used) == 1 and r == (5, 6, q), 'one signature')
    if st == 'ok':
        h.check(used[0][0] == x, 'with the private key')
        h.check(used[0][1] == h.be(d), 'of the digest')
        h.check(used[0][2] == want, 'with the nonce of RFC 6979')


def instances(tier):
    deep = tier == 'thorough'
    out = []
    R = 4 if deep else 1
    o = dict(branch_ms=1500)
    for q in ORDERS:
        for alg, n in (('sha1', 20), ('sha256', 32), ('sha512', 64)):
            if deep or alg == 'sha256' or q in (9, 161, 163):
                out.append(Inst('nonce[%d,%s]' % (q, alg), nonce, dict(order=q, alg=alg, n=n, rejected=R), cost=10, **o))
    for c, alg, n in (('NIST192p', 'sha1', 20), ('NIST224p', 'sha224', 28), ('NIST256p', 'sha256', 32), ('SECP256k1', 'sha256', 32), ('SECP256k1', 'sha1', 20),
                      ('SECP256k1', 'sha512', 64), ('NIST384p', 'sha384', 48), ('NIST521p', 'sha512', 64), ('NIST521p', 'sha1', 20), ('NIST192p', 'sha512', 64)):
        out.append(Inst('nonce[%s,%s]' % (c, alg), nonce, dict(order=c, alg=alg, n=n, rejected=R), cost=20, **o))
    for q, n in ((8, 1), (9, 1), (9, 2), (16, 1), (17, 3), (163, 19), (163, 20), (163, 21), (163, 22), ('NIST521p', 65), ('NIST521p', 66), ('SECP256k1', 31), ('SECP256k1', 33)):
        out.append(Inst('nonce[%s,%d bytes]' % (q, n), nonce, dict(order=q, alg='sha256', n=n, rejected=1), cost=10, **o))
    for how in ('digest', 'data', 'default'):
        out.append(Inst('signing[%s]' % how, signing, dict(how=how), cost=20, **o))
    return out
