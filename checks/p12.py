"""Public keys compress and decompress to the same point."""
from symx.inst import Inst
import ecmodel

BOUNDS = ('every point of secp256k1 (as an abstract group element); key encodings of 0-2, 32-34, 64-66 arbitrary bytes')
OUTSIDE = 'the modular square root and the curve membership test themselves (P22, P21); encodings of other lengths'
ASSUMPTIONS = ['secp256k1 coordinates are uninterpreted functions of the discrete logarithm with the curve\'s symmetry facts (same x only for P and -P, y of -P is p-y)',
               'square_root_mod_prime of the curve polynomial at x gives one of the two y of the points with that x, and refuses when there is none']


def enc(h, x, y):
    return h.concat(b'\x04', h.to_be(x, 32), h.to_be(y, 32))


def parity(h, y):
    return h.run(lambda: y % 2)


def roundtrip(h, which):
    from nbc.util import key
    from nbc.wallet import hdwallet
    from nbc.util.ecdsa import SECP256k1
    ec = ecmodel.EC(h)
    k = h.scalar('k', ecmodel.N)
    x, y = ec.xy(k)
    full = enc(h, x, y)
    want = h.concat(h.to_be(2 + parity(h, y), 1), h.to_be(x, 32))
    if which == 'key':
        c = h.run(key.compress_public_key, full)
        h.check(h.eq(c, want), 'compressed form is the parity of y and x')
        st, d = h.call(key.decompress_public_key, c)
        h.check(st == 'ok', 'a compressed key decompresses')
        h.check(h.eq(d, full), 'decompressing gives the point back')
    elif which == 'full':
        st, d = h.call(key.decompress_public_key, full)
        h.check(st == 'ok' and h.eq(d, full), 'an uncompressed key is kept')
    elif which == 'hd':
        c = h.run(hdwallet.point_compress, ec.point(k))
        h.check(h.eq(c, want), 'compressed form is the parity of y and x')
        st, p = h.call(hdwallet.point_decompress, SECP256k1.curve, c)
        h.check(st == 'ok', 'a compressed point decompresses')
        h.check(h.all(h.run(p.x) == x, h.run(p.y) == y), 'decompressing gives the point back')
    elif which == 'cross':
        c = h.run(hdwallet.point_compress, ec.point(k))
        st, d = h.call(key.decompress_public_key, c)
        h.check(st == 'ok' and h.eq(d, full), 'both compressions agree')
    elif which == 'opposite':
        other = h.concat(h.to_be(3 - parity(h, y), 1), h.to_be(x, 32))
        st, d = h.call(key.decompress_public_key, other)
        h.check(st == 'ok' and h.eq(d, enc(h, x, ecmodel.P - y)), 'the other header gives the opposite point')
        st, p = h.call(hdwallet.point_decompress, SECP256k1.curve, other)
        h.check(st == 'ok' and h.all(h.run(p.x) == x, h.run(p.y) == ecmodel.P - y), 'the other header gives the opposite point')


def expect(h, ec, d, n):
    """the point encoded by n bytes d, or None"""
    cs = h.cells(d)
    if n == 33 and h.any(cs[0] == 2, cs[0] == 3):
        x = h.be(d[1:])
        ys = ec.lift(x)
        if ys is None:
            return None
        y = ys[0]
        if parity(h, y) != parity(h, cs[0]):
            y = ys[1]
        return x, y
    if n == 65 and cs[0] == 4:
        x, y = h.be(d[1:33]), h.be(d[33:])
        return (x, y) if ec.on_curve(x, y) else None
    return None


def any_key(h, n):
    from nbc.util import key
    ec = ecmodel.EC(h)
    d = h.concat(h.bytes('head', 1), h.noise('d', n - 1)) if n > 1 else h.bytes('head', n)
    want = expect(h, ec, d, n)
    st, r = h.call(key.decompress_public_key, d)
    if st == 'raise':
        h.check(isinstance(r, ValueError), 'refused with a value error, not %s' % type(r).__name__)
        h.check(want is None, 'the encoding of a point is accepted')
    else:
        h.check(want is not None, 'what encodes no point is refused')
        if want is not None:
            h.check(h.eq(r, enc(h, *want)), 'the point of the encoding')


def any_hd(h, n):
    from nbc.wallet import hdwallet
    from nbc.util.ecdsa import SECP256k1
    ec = ecmodel.EC(h)
    d = h.concat(h.bytes('head', 1), h.noise('d', n - 1)) if n > 1 else h.bytes('head', n)
    want = expect(h, ec, d, n) if n == 33 else None
    st, r = h.call(hdwallet.point_decompress, SECP256k1.curve, d)
    if st == 'raise':
        h.check(isinstance(r, ValueError), 'refused with a value error, not %s' % type(r).__name__)
        h.check(want is None, 'the encoding of a point is accepted')
    else:
        h.check(want is not None, 'what encodes no point is refused')
        if want is not None:
            h.check(h.all(h.run(r.x) == want[0], h.run(r.y) == want[1]), 'the point of the encoding')


def near_p(h, hd):
    """x not below p: never an encoding (small window, exact values)"""
    from nbc.util import key
    from nbc.wallet import hdwallet
    from nbc.util.ecdsa import SECP256k1
    ecmodel.EC(h)
    t = h.int('t', 0, 2 ** 256 - 1 - ecmodel.P)
    d = h.concat(h.choice('head', [b'\2', b'\3']), h.to_be(ecmodel.P + t, 32))
    st, r = h.call(hdwallet.point_decompress, SECP256k1.curve, d) if hd else h.call(key.decompress_public_key, d)
    h.check(st == 'raise' and isinstance(r, ValueError), 'an x beyond the field is refused')


def shifted(h, hd):
    """x + p for a point with small x"""
    from nbc.util import key
    from nbc.wallet import hdwallet
    from nbc.util.ecdsa import SECP256k1
    xs = [x for x in range(1, 40) if ecmodel.ref_lift(x)]
    x = h.choice('x', xs) + ecmodel.P
    ecmodel.EC(h)
    d = h.concat(h.choice('head', [b'\2', b'\3']), h.to_be(x, 32))
    st, r = h.call(hdwallet.point_decompress, SECP256k1.curve, d) if hd else h.call(key.decompress_public_key, d)
    h.check(st == 'raise' and isinstance(r, ValueError), 'an x beyond the field is refused')


def bad_compress(h, n):
    """only 65 bytes with header 4 can be compressed"""
    from nbc.util import key
    d = h.bytes('d', n)
    st, r = h.call(key.compress_public_key, d)
    cs = h.cells(d)
    good = n == 65 and bool(cs[0] == 4)
    if st == 'raise':
        h.check(isinstance(r, ValueError) and not good, 'refused with a value error')
    else:
        h.check(good, 'refused unless 65 bytes with header 4')


def instances(tier):
    out = []
    for w in ('key', 'full', 'hd', 'cross', 'opposite'):
        out.append(Inst('roundtrip[%s]' % w, roundtrip, dict(which=w), alts=12))
    for n in (0, 1, 2, 32, 33, 34, 64, 65, 66):
        out.append(Inst('any_key[%d]' % n, any_key, dict(n=n), alts=12))
        out.append(Inst('any_hd[%d]' % n, any_hd, dict(n=n), alts=12))
    for hd in (False, True):
        out.append(Inst('near_p[%s]' % hd, near_p, dict(hd=hd), alts=2))
        out.append(Inst('shifted[%s]' % hd, shifted, dict(hd=hd)))
    for n in (1, 33, 64, 65, 66):
        out.append(Inst('bad_compress[%d]' % n, bad_compress, dict(n=n)))
    return out
