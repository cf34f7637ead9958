"""Random scalars always lie in [1, n-1] whatever the entropy."""
from symx.inst import Inst
import ecmodel

BOUNDS = ('orders 2-257 (a selection), 65535-65537, 2^24, around 2^256, and of the six curves; the bytes of the first three reads arbitrary; seeds: '
          'every text of 0, 1, 5 and 20 characters (ASCII) and a number of fixed byte seeds, the first two candidates of the retrying variant')
OUTSIDE = 'more retries; giving up after ten thousand'
ASSUMPTIONS = ['SHA-256 is a deterministic function of the message']

SMALL = [2, 3, 4, 5, 7, 13, 127, 128, 129, 255, 256, 257, 258, 65535, 65536, 65537, 2 ** 24, 2 ** 24 + 1]
BIG = [2 ** 255, 2 ** 256 - 1, 2 ** 256, 2 ** 256 + 1, 2 ** 160 + 7, 2 ** 521 - 1]
CURVES = ['NIST192p', 'NIST224p', 'NIST256p', 'NIST384p', 'NIST521p', 'SECP256k1']


def order_of(o):
    from nbc.util.ecdsa import curves
    return getattr(curves, o).order if isinstance(o, str) else o


def size(n):
    return (len('%x' % n) + 1) // 2


class Source(object):
    """entropy: `first` reads arbitrary, the rest fixed and usable"""

    def __init__(self, h, first):
        self.h, self.left, self.reads, self.asked = h, first, [], []

    def __call__(self, n):
        self.asked.append(n)
        i = len(self.reads)
        v = self.h.bytes('read%d' % i, n) if self.left > 0 else bytes(n)
        self.left -= 1
        self.reads.append(v)
        return v


def draw(h, order, how):
    """in range, whatever is read; a function of what is read"""
    import os
    from nbc.util.ecdsa import util
    n = order_of(order)
    src = Source(h, 3)
    if how == 'default':
        h.stub(os, 'urandom', src)
        st, k = h.call(util.randrange, n)
    else:
        st, k = h.call(util.randrange, n, entropy=src)
    h.check(st == 'ok', 'a number')
    if st == 'ok':
        h.check(h.all(k >= 1, k < n), 'in [1, n-1]')
    h.check(1 <= len(src.reads) <= 4, 'reads what it needs')
    again = Source(h, 3)
    again.reads, again.h = [], Replay(src.reads)
    st2, k2 = h.call(util.randrange, n, entropy=again)
    h.check(st2 == st and k2 == k, 'the same entropy gives the same number')


class Replay(object):
    def __init__(self, reads):
        self.reads = reads

    def bytes(self, name, n):
        return self.reads[int(name[4:])]


def reach(h, order):
    """every number in range can be drawn, at once"""
    from nbc.util.ecdsa import util
    n = order_of(order)
    t = h.int('t', 1, n - 1)
    l = size(n)
    reads = []

    def entropy(k):
        reads.append(k)
        return h.to_be(h.run(lambda: t - 1), k)
    st, k = h.call(util.randrange, n, entropy=entropy)
    h.check(st == 'ok', 'a number')
    if st == 'ok':
        h.check(k == t, 'the number whose predecessor was read')
        h.check(reads == [l], 'one read of the length of the order')


def prng(h, seed, n, skip=0):
    """the documented stream: SHA-256 of prng-<counter>-<seed>"""
    out, i = [], 0
    while len(out) < n + skip:
        out += h.cells(h.sha('sha256', h.concat(b'prng-%d-' % i, seed)))
        i += 1
    return out[skip:n + skip]


def number(h, cells):
    return h.be(h.from_cells('b', cells)) if cells else 0


def seeded(h, order, variant, n):
    from nbc.util.ecdsa import util
    q = order_of(order)
    if isinstance(n, bytes):
        seed, text = n, repr(n).encode()
    else:
        seed = h.str('seed', n, 32, 126)
        text = h.from_cells('b', [ord(c) if isinstance(c, str) and not h.is_sym(c) else c for c in h.cells(seed)]) if n else b''
    if variant == 'overshoot_modulo':
        base = number(h, prng(h, text, 2 * size(q)))
        want = h.run(lambda: base % (q - 1)) + 1
    elif variant == 'trytryagain':
        import math
        bits = int(math.log(q - 1, 2) + 1)
        whole, extra = bits // 8, bits % 8
        take = whole + (1 if extra else 0)
        tries = 2 if h.is_sym(text) or type(n) is int and n else 40       # a fixed seed: as long as it takes
        stream = prng(h, text, tries * take)
        want = None
        for i in range(tries):
            c = stream[i * take:(i + 1) * take]
            if extra:
                top = c[0]
                c = [h.run(lambda: top % 2 ** extra)] + c[1:]
            v = number(h, c) + 1
            if v < q:
                want = v
                break
        h.assume(want is not None)
    else:
        want = None
    args = (seed,) if variant in ('overshoot_modulo', 'trytryagain') else (text if not isinstance(n, bytes) else n,)
    f = getattr(util, 'randrange_from_seed__' + variant)
    st, k = h.call(f, args[0], q)
    if variant.startswith('truncate'):
        # refuses (assertion) what it cannot bring into range
        h.check(st == 'ok' or isinstance(k, AssertionError), 'a number or a refusal')
        import math
        if variant == 'truncate_bytes' and int(math.log(q - 1, 2) + 1) == (q - 1).bit_length():      # (bits are counted in floating point)
            l = (q - 1).bit_length() + 7 >> 3
            digest = h.sha('sha256', args[0])
            v = number(h, h.cells(digest)[:l]) + 1
            h.check((v < q) if st == 'ok' else h.not_(v < q), 'refused only out of range')
            want = v
    else:
        h.check(st == 'ok', 'a number')
    if st == 'ok':
        h.check(h.all(k >= 1, k < q), 'in [1, n-1]')
        if want is not None:
            h.check(k == want, 'the documented function of the seed')
        st2, k2 = h.call(f, args[0], q)
        h.check(st2 == 'ok' and k2 == k, 'the same seed gives the same number')


def keys_(h, how):
    """fresh keys and nonces are drawn that way"""
    from nbc.util.ecdsa import keys, ecdsa, SECP256k1, util
    q = SECP256k1.order
    ec = ecmodel.EC(h)
    src = Source(h, 2)
    if how == 'key':
        sk = h.run(keys.SigningKey.generate, curve=SECP256k1, entropy=src)
        x = h.be(h.run(sk.to_string))
        h.check(h.all(x >= 1, x < q), 'the key is in [1, n-1]')
        h.check(h.any(*[x == h.run(lambda: h.be(r) + 1) for r in src.reads]), 'and was read')
        return
    used = []

    def sign(self, num, k):
        used.append(k)
        return ecdsa.Signature(5, 6)
    h.stub(ecdsa.Private_key, 'sign', sign)
    sk = h.run(keys.SigningKey.from_secret_exponent, h.scalar('x', q), curve=SECP256k1)
    st, r = h.call(sk.sign_digest, h.bytes('d', 32), entropy=src)
    h.check(st == 'ok' and len(used) == 1, 'one signature')
    if used:
        k = used[0]
        h.check(h.all(k >= 1, k < q), 'the nonce is in [1, n-1]')
        h.check(h.any(*[k == h.run(lambda: h.be(r) + 1) for r in src.reads]), 'and was read')


def wallet(h, compressed):
    """new addresses have a fresh private key in range"""
    import os
    from nbc.wallet import address
    from nbc.util import key
    from nbc.util.ecdsa import SECP256k1
    src = Source(h, 1)
    made = []
    h.stub(os, 'urandom', src)
    h.stub(key, 'privkey_to_wif', lambda k, *a, **kw: made.append(k) or 'WIF')

    class Address(object):
        def __init__(self, **kw):
            self.kw = kw
    h.stub(address, 'Address', Address)
    st, a = h.call(GENERATE[0], vcn=3, testnet=False, compressed=compressed)
    h.check(st == 'ok' and len(made) == 1, 'a new address')
    if made:
        h.check(h.len(made[0]) == (33 if compressed else 32), 'one key')
        x = h.be(made[0][:32])
        h.check(h.all(x >= 1, x < SECP256k1.order), 'in [1, n-1]')
        h.check(h.any(*[x == h.run(lambda: h.be(r) + 1) for r in src.reads]), 'and was read')


GENERATE = []


def prepare():
    from nbc.wallet import address
    GENERATE[:] = [address.Address.generate]


def instances(tier):
    deep = tier == 'thorough'
    out = []
    o = dict(branch_ms=1500)
    for order in SMALL + BIG + CURVES:
        out.append(Inst('draw[%s]' % order, draw, dict(order=order, how='given'), **o))
        out.append(Inst('reach[%s]' % order, reach, dict(order=order), **o))
    for order in (5, 'SECP256k1'):
        out.append(Inst('draw[%s,default]' % order, draw, dict(order=order, how='default'), **o))
    for order in [3, 5, 13, 127, 128, 129, 255, 256, 257, 65537] + BIG + CURVES:
        for v in ('overshoot_modulo', 'trytryagain', 'truncate_bytes', 'truncate_bits'):
            for n in (5,) + ((0, 1, 20) if deep or order in (13, 'SECP256k1') else ()) + ((b'', b'seed', b'\xff\0') if order in (257, 'NIST521p') else ()):
                if v == 'truncate_bytes' and isinstance(order, int) and order > 2 ** 200:
                    continue        # bits counted in floating point there
                out.append(Inst('seeded[%s,%s,%s]' % (order, v, n), seeded, dict(order=order, variant=v, n=n), **o))
    out.append(Inst('keys[key]', keys_, dict(how='key'), cost=5, **o))
    out.append(Inst('keys[nonce]', keys_, dict(how='nonce'), cost=5, **o))
    out.append(Inst('wallet[compressed]', wallet, dict(compressed=True), **o))
    out.append(Inst('wallet[uncompressed]', wallet, dict(compressed=False), **o))
    return out
