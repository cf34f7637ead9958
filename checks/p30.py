"""ECDH: both sides derive the same shared secret."""
from symx.inst import Inst
import ecmodel
import b58model
import p13
import p26

BOUNDS = ('every pair of private keys in [1, n-1], both public key forms, both private key text forms; every 64 byte point body on or off the curve, '
          'every 32 byte x under both compressed headers, every other header byte, lengths 0, 1, 32-34, 64-66')
OUTSIDE = 'base58 (P10), the group itself (P21), private key texts holding a number outside [1, n-1]'
ASSUMPTIONS = ['secp256k1 as an abstract group of its order', 'base58 as its contract',
               'multiplication modulo n is commutative, without zero divisors and has the unit 1; nothing else is used about it']
N = ecmodel.N


def group(h):
    ec = ecmodel.EC(h)
    ec.opaque_mul = True
    return ec


def pub(h, ec, k, compressed):
    return p13.forms(h, *ec.xy(k))[1 if compressed else 0]


def agree(h, form_pub, form_wif):
    """secret(A, b) is the x coordinate of ab*G, and equals secret(B, a)"""
    from nbc.util import ecc
    b58model.install(h)
    ec = group(h)
    a, b = h.scalar('a', N), h.scalar('b', N)
    A, B = pub(h, ec, a, form_pub), pub(h, ec, b, not form_pub)
    st, s = h.call(ecc.shared_secret, A, p26.wif(h, b, form_wif))
    h.check(st == 'ok', 'a secret for every pair of keys')
    st2, t = h.call(ecc.shared_secret, B, p26.wif(h, a, not form_wif))
    h.check(st2 == 'ok', 'a secret for every pair of keys, other side')
    if st != 'ok' or st2 != 'ok':
        return
    ab = ec.mul(a, b)
    h.check(h.len(s) == 32, '32 bytes')
    h.check(h.eq(s, t), 'both sides derive the same secret')
    h.check(h.be(s) == ec.xy(ab)[0], 'the x coordinate of the product')


def forms_agree(h):
    """the form of the public key does not matter"""
    from nbc.util import ecc
    b58model.install(h)
    ec = group(h)
    a, b = h.scalar('a', N), h.scalar('b', N)
    w = p26.wif(h, b, h.bool('compressed'))
    st, s = h.call(ecc.shared_secret, pub(h, ec, a, False), w)
    st2, t = h.call(ecc.shared_secret, pub(h, ec, a, True), w)
    h.check(st == st2 == 'ok', 'a secret for both forms')
    if st == st2 == 'ok':
        h.check(h.eq(s, t), 'the same secret for both forms of a public key')


def full_key(h, random):
    """an uncompressed point on or off the curve"""
    from nbc.util import ecc
    b58model.install(h)
    ec = group(h)
    d = h.noise('d', 64)
    b = h.scalar('b', N) if random else 1
    x, y = h.be(d[:32]), h.be(d[32:])
    on = ec.on_curve(x, y)
    st, s = h.call(ecc.shared_secret, h.concat(b'\4', d), p26.wif(h, b, True))
    if on:
        h.check(st == 'ok', 'a point of the curve is accepted')
        if st == 'ok' and not random:
            h.check(h.len(s) == 32 and h.be(s) == x, 'one times a point')
    else:
        h.check(st == 'raise' and isinstance(s, ValueError), 'a point off the curve is refused with a value error')


def short_key(h, head, random):
    from nbc.util import ecc
    b58model.install(h)
    ec = group(h)
    d = h.noise('d', 32)
    b = h.scalar('b', N) if random else 1
    ys = ec.lift(h.be(d))
    st, s = h.call(ecc.shared_secret, h.concat(bytes([head]), d), p26.wif(h, b, True))
    if ys is not None:
        h.check(st == 'ok', 'an x of the curve is accepted')
        if st == 'ok' and not random:
            h.check(h.eq(s, d), 'one times a point')
    else:
        h.check(st == 'raise' and isinstance(s, ValueError), 'an x off the curve is refused with a value error')


def bad_pub(h, n):
    from nbc.util import ecc
    b58model.install(h)
    ec = group(h)
    d = h.concat(h.bytes('head', 1), h.noise('d', n - 1)) if n > 1 else h.bytes('head', n)
    if n == 65:
        h.assume(h.not_(h.cells(d)[0] == 4))
    if n == 33:
        h.assume(h.not_(h.cells(d)[0] == 2))
        h.assume(h.not_(h.cells(d)[0] == 3))
    st, t = h.call(ecc.shared_secret, d, p26.wif(h, 5, False))
    h.check(st == 'raise' and isinstance(t, ValueError), 'refused with a value error')


def bad_wif(h):
    from nbc.util import ecc
    b58model.install(h)
    ec = group(h)
    a = h.scalar('a', N)
    body = h.concat(h.bytes('head', 1), h.noise('k', 32), h.bytes('tail', 1))
    h.assume(h.any(h.not_(h.cells(body)[0] == 0x80), h.not_(h.cells(body)[33] == 1)))
    from nbc.util import base58
    t = h.run(base58.encode_check, body)
    st, r = h.call(ecc.shared_secret, pub(h, ec, a, False), t)
    h.check(st == 'raise' and isinstance(r, ValueError), 'not a private key: refused')


def instances(tier):
    out = []
    for p in (False, True):
        for w in (False, True):
            out.append(Inst('agree[%s,%s]' % (p, w), agree, dict(form_pub=p, form_wif=w), cost=40, branch_ms=1500, alts=8))
        for r in (False, True):
            out.append(Inst('short_key[%d,%s]' % (2 + p, r), short_key, dict(head=2 + p, random=r), cost=10, alts=8))
        out.append(Inst('full_key[%s]' % p, full_key, dict(random=p), cost=10, alts=8))
    out.append(Inst('forms_agree', forms_agree, cost=40, branch_ms=1500, alts=8))
    for n in (0, 1, 32, 33, 34, 64, 65, 66):
        out.append(Inst('bad_pub[%d]' % n, bad_pub, dict(n=n)))
    out.append(Inst('bad_wif', bad_wif))
    return out
