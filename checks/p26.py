"""Split keys combine to the original key and piecewise addresses match."""
from symx.inst import Inst
import ecmodel
import b58model

BOUNDS = ('every private key and every random part in [1, n-1], 1-4 parts (thorough: 1-8), both key forms, parts combined in any rotation; '
          'every pair of keys, chain number and version byte for the piecewise address, opposite keys included')
OUTSIDE = 'base58 (P10), the group itself (P21), the experimental partial_* functions (their author calls them thinking out loud)'
ASSUMPTIONS = ['secp256k1 as an abstract group of its order', 'base58 as its contract', 'the random parts are whatever randrange returns (P20), '
               'at most one redraw per split']
N = ecmodel.N


def wif(h, k, compressed):
    from nbc.util import key
    kb = h.to_be(k, 32)
    return h.run(key.privkey_to_wif, h.concat(kb, b'\1') if compressed else kb)


def number(h, text, label):
    from nbc.util import key
    st, raw = h.call(key.privkey_from_wif, text)
    h.check(st == 'ok', label + ': a private key text')
    if st != 'ok':
        return None
    h.check(h.len(raw) == 32, label + ': 32 bytes')
    v = h.be(raw)
    h.check(h.all(v >= 1, v < N), label + ': a number in [1, n-1]')
    return v


def split(h, count, compressed, rot):
    from nbc.util import piecewise
    b58model.install(h)
    k = h.scalar('k', N)
    drawn = []

    def rand(order, *a, **kw):
        h.check(order == N, 'parts below the group order')
        h.assume(len(drawn) < 2 * max(count - 1, 1))
        drawn.append(h.scalar('part%d' % len(drawn), N))
        return drawn[-1]
    h.stub(piecewise, 'randrange', rand)
    st, parts = h.call(piecewise.split_private_key, wif(h, k, compressed), *([] if count == 2 else [count]))
    h.check(st == 'ok', 'every key can be split')
    if st != 'ok':
        return
    h.check(len(parts) == count, 'as many parts as asked')
    vs = [number(h, p, 'part') for p in parts]
    if None in vs:
        return
    for a in range(count - 1):
        h.check(h.any(*[vs[a] == d for d in drawn]), 'all parts but the last are random')
    parts = parts[rot:] + parts[:rot]
    st, whole = h.call(piecewise.combine_private_keys, parts)
    h.check(st == 'ok', 'the parts combine')
    if st == 'ok':
        v = number(h, whole, 'combined')
        if v is not None:
            h.check(v == k, 'the original key')


def combine(h, count, forms):
    """any keys: their sum modulo n"""
    from nbc.util import piecewise
    b58model.install(h)
    ks = [h.scalar('k%d' % i, N) for i in range(count)]
    total = h.run(lambda: sum(ks) % N)
    h.assume(total != 0)
    st, w = h.call(piecewise.combine_private_keys, [wif(h, k, (i + forms) % 2 == 0) for i, k in enumerate(ks)])
    h.check(st == 'ok', 'the keys combine')
    if st == 'ok':
        v = number(h, w, 'combined')
        if v is not None:
            h.check(v == total, 'the sum modulo n')


def address(h, compressed):
    from nbc.util import piecewise
    import p13
    b58model.install(h)
    ec = ecmodel.EC(h)
    a, b = h.scalar('a', N), h.scalar('b', N)
    vcn, ver = h.int('vcn', 0, 65535), h.bytes('ver', 1)
    full, _ = p13.forms(h, *ec.xy(a))
    kw = {} if h.bool('default version') else dict(version=ver)
    st, t = h.call(piecewise.get_address, full, wif(h, b, compressed), vcn, **kw)
    if h.run(lambda: (a + b) % N) == 0:
        h.check(st == 'raise', 'opposite keys have no address')
        return
    h.check(st == 'ok', 'an address')
    if st != 'ok':
        return
    want, _ = p13.forms(h, *ec.xy(h.run(lambda: (a + b) % N)))
    p13.is_addr(h, t, want, vcn, kw.get('version', b'\0'), 'combined')
    st, w = h.call(piecewise.combine_private_keys, [wif(h, a, False), wif(h, b, compressed)])
    from nbc.wallet.address import Address
    if not kw:
        st, ad = h.call(Address, privKey=w, vcn=vcn)
        h.check(st == 'ok', 'a wallet of the combined key')
        if st == 'ok':
            h.check(h.eq(ad.address, t), 'the address of the combined private key')


def opposite(h, compressed):
    """the sum of a key and its negative is no key"""
    from nbc.util import piecewise
    import p13
    b58model.install(h)
    ec = ecmodel.EC(h)
    a = h.scalar('a', N)
    full, _ = p13.forms(h, *ec.xy(a))
    st, t = h.call(piecewise.get_address, full, wif(h, N - a, compressed), h.int('vcn', 0, 65535))
    h.check(st == 'raise', 'opposite keys have no address')


def doubled(h, compressed):
    """the same key twice"""
    from nbc.util import piecewise
    import p13
    b58model.install(h)
    ec = ecmodel.EC(h)
    a = h.scalar('a', N)
    vcn = h.int('vcn', 0, 65535)
    full, _ = p13.forms(h, *ec.xy(a))
    st, t = h.call(piecewise.get_address, full, wif(h, a, compressed), vcn)
    h.check(st == 'ok', 'an address')
    if st == 'ok':
        want, _ = p13.forms(h, *ec.xy(h.run(lambda: (2 * a) % N)))
        p13.is_addr(h, t, want, vcn, b'\0', 'twice the key')


def bad_pub(h, n):
    """bytes that are not an uncompressed public key"""
    from nbc.util import piecewise
    b58model.install(h)
    ec = ecmodel.EC(h)
    d = h.concat(h.bytes('head', 1), h.noise('d', n - 1)) if n > 1 else h.bytes('head', n)
    if n == 65:
        h.assume(h.not_(h.cells(d)[0] == 4))
    st, t = h.call(piecewise.get_address, d, wif(h, 5, False), 1)
    h.check(st == 'raise' and isinstance(t, ValueError), 'refused with a value error')


def off_curve(h):
    from nbc.util import piecewise
    b58model.install(h)
    ec = ecmodel.EC(h)
    d = h.noise('d', 64)
    x, y = h.be(d[:32]), h.be(d[32:])
    h.assume(h.all(x < ecmodel.P, y < ecmodel.P))
    on = ec.on_curve(x, y)
    st, t = h.call(piecewise.get_address, h.concat(b'\4', d), wif(h, 5, False), 1)
    if not on:
        h.check(st == 'raise', 'a point off the curve is refused')


def bad_wif(h, which):
    from nbc.util import piecewise
    t = h.str('t', 6) if which == 'short' else h.bytes('t', 3)
    f = h.choice('f', ['split', 'combine'])
    st, r = h.call(piecewise.split_private_key, t) if f == 'split' else h.call(piecewise.combine_private_keys, [t])
    h.check(st == 'raise', 'not a private key text')


def instances(tier):
    deep = tier == 'thorough'
    out = []
    for n in range(1, 9 if deep else 5):
        for c in (False, True):
            out.append(Inst('split[%d,%s]' % (n, c), split, dict(count=n, compressed=c, rot=(n - 1) if c else n // 2), cost=n * 10, branch_ms=1500))
            out.append(Inst('combine[%d,%s]' % (n, c), combine, dict(count=n, forms=int(c)), cost=n * 5, branch_ms=1500))
    for c in (False, True):
        out.append(Inst('address[%s]' % c, address, dict(compressed=c), cost=50, branch_ms=1500, alts=8))
        out.append(Inst('opposite[%s]' % c, opposite, dict(compressed=c), cost=20, branch_ms=1500))
        out.append(Inst('doubled[%s]' % c, doubled, dict(compressed=c), cost=20, branch_ms=1500))
    for n in (0, 1, 33, 64, 65, 66):
        out.append(Inst('bad_pub[%d]' % n, bad_pub, dict(n=n)))
    out.append(Inst('off_curve', off_curve, cost=5, alts=8))
    for w in ('bytes',):
        out.append(Inst('bad_wif[%s]' % w, bad_wif, dict(which=w)))
    return out
