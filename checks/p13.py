"""The address of a wallet is determined by key, form, network and chain number."""
from symx.inst import Inst
import ecmodel

BOUNDS = ('every private key in [1, n-1] and every point of secp256k1 (abstract group element), both forms, both networks, every chain number; '
          'arbitrary public key bytes of 0-2, 32-34, 64-66 bytes; hash functions uninterpreted')
OUTSIDE = 'point multiplication, square root and curve membership themselves (P21, P22); base58 (P10)'
ASSUMPTIONS = ['hash functions are deterministic functions of their input bytes',
               'secp256k1 coordinates are uninterpreted functions of the discrete logarithm with the curve\'s symmetry facts']


def hex4(h, v):
    out = []
    for c in h.cells(h.to_be(v, 2)):
        for d in (h.run(lambda: c // 16), h.run(lambda: c % 16)):
            out.append(h.ite(d < 10, d + 48, d + 87))
    return h.from_cells('b', out)


def addr_payload(h, pub, vcn, version):
    hh = h.sha('sha512', pub)
    rr = h.concat(h.sha('ripemd160', hh[:32]), h.sha('ripemd160', hh[32:]))
    return h.concat(version, hex4(h, h.run(lambda: vcn % 65536)), h.sha('sha256', rr))


def is_addr(h, text, pub, vcn, version, label):
    """checked base58 of the payload (base58 itself is P10)"""
    from nbc.util import base58
    st, raw = h.call(base58.b58decode, text)
    h.check(st == 'ok' and h.len(raw) == 41, label + ': address text is base58 of 41 bytes')
    h.check(h.eq(raw[:5], addr_payload(h, pub, vcn, version)[:5]), label + ': version and chain number of the address')
    h.check(h.eq(raw[:-4], addr_payload(h, pub, vcn, version)), label + ': key hash of the address')
    h.check(h.eq(raw[-4:], h.sha('sha256', h.sha('sha256', raw[:-4]))[:4]), label + ': address checksum')


def forms(h, x, y):
    xb, yb = h.to_be(x, 32), h.to_be(y, 32)
    return h.concat(b'\4', xb, yb), h.concat(h.to_be(2 + h.run(lambda: y % 2), 1), xb)


def expect(h, a, full, comp, compressed, vcn, testnet, label):
    h.check(h.eq(a.pubKey, full), label + ': the public key of the private key')
    h.check(a.compressed == compressed and a.testnet == testnet, label + ': form and network')
    h.check(a.vcn == h.run(lambda: vcn % 65536), label + ': chain number')
    h.check(h.eq(h.run(a.publicKey), comp if compressed else full), label + ': key bytes in the form of the wallet')
    is_addr(h, a.address, comp if compressed else full, vcn, b'\x6f' if testnet else b'\0', label)


def from_priv(h, compressed, testnet, convert):
    from nbc.wallet.address import Address
    from nbc.util import key
    ec = ecmodel.EC(h)
    k = h.scalar('k', ecmodel.N)
    vcn = h.int('vcn', 0, 65535)
    x, y = ec.xy(k)
    full, comp = forms(h, x, y)
    kb = h.to_be(k, 32)
    wif = h.run(key.privkey_to_wif, h.concat(kb, b'\1') if compressed else kb)
    st, a = h.call(Address, privKey=wif, vcn=vcn, testnet=testnet)
    h.check(st == 'ok', 'a wallet of a valid private key')
    if convert == 'no':
        expect(h, a, full, comp, compressed, vcn, testnet, 'made from a key')
        h.check(h.eq(a.privKey, wif), 'keeps the private key text')
        return
    b = h.run(a.decompress if compressed else a.compress)
    if convert == 'one':
        expect(h, b, full, comp, not compressed, vcn, testnet, 'converted')
        other = h.run(key.privkey_to_wif, h.concat(kb, b'\1') if not compressed else kb)
        h.check(h.eq(b.privKey, other), 'converting keeps the private key')
        h.check(h.run(a.compress if compressed else a.decompress) is a, 'already in that form')
    else:
        c = h.run(b.compress if compressed else b.decompress)
        h.check(h.all(h.eq(c.address, a.address), h.eq(c.privKey, a.privKey), c.vcn == a.vcn, c.testnet == a.testnet,
                      c.compressed == a.compressed), 'there and back')


def from_pub(h, compressed, testnet):
    from nbc.wallet.address import Address
    ec = ecmodel.EC(h)
    k = h.scalar('k', ecmodel.N)
    vcn = h.int('vcn', 0, 65535)
    x, y = ec.xy(k)
    full, comp = forms(h, x, y)
    st, a = h.call(Address, pubKey=comp if compressed else full, vcn=vcn, testnet=testnet)
    h.check(st == 'ok', 'a wallet of a valid public key')
    expect(h, a, full, comp, compressed, vcn, testnet, 'made from a public key')
    h.check(a.privKey is None, 'no private key')
    b = h.run(a.decompress if compressed else a.compress)
    expect(h, b, full, comp, not compressed, vcn, testnet, 'converted')
    c = h.run(b.compress if compressed else b.decompress)
    h.check(h.eq(c.address, a.address), 'there and back')


def chain_number(h):
    """any integer chain number is taken modulo 2^16"""
    from nbc.wallet.address import Address
    ec = ecmodel.EC(h)
    x, y = ec.xy(1)
    full, comp = forms(h, x, y)
    vcn = h.int('vcn', -2 ** 40, 2 ** 40)
    a = h.run(Address, pubKey=full, vcn=vcn)
    expect(h, a, full, comp, False, vcn, False, 'any chain number')


def random_chain(h):
    from nbc.wallet import address
    ec = ecmodel.EC(h)
    x, y = ec.xy(1)
    full, comp = forms(h, x, y)
    v = h.int('vcn', 0, 65535)
    asked = []
    h.stub(address, 'randint', lambda a, b: (asked.append((a, b)), v)[1])
    a = h.run(address.Address, pubKey=full)
    h.check(asked == [(0, 65535)], 'a random 16-bit chain number')
    expect(h, a, full, comp, False, v, False, 'random chain number')


def generate(h, compressed):
    from nbc.wallet import address
    from nbc.util import key
    ec = ecmodel.EC(h)
    k = h.scalar('k', ecmodel.N)
    x, y = ec.xy(k)
    full, comp = forms(h, x, y)
    h.stub(address, 'randrange', lambda order: k if order == ecmodel.N else None)
    a = h.run(address.Address.generate, vcn=7, compressed=compressed)
    expect(h, a, full, comp, compressed, 7, False, 'generated')
    kb = h.to_be(k, 32)
    h.check(h.eq(h.run(a._priv_key), kb), 'the random key')


def bad_pub(h, n):
    from nbc.wallet.address import Address
    ec = ecmodel.EC(h)
    d = h.concat(h.bytes('head', 1), h.noise('d', n - 1)) if n > 1 else h.bytes('head', n)
    import p12
    want = p12.expect(h, ec, d, n)
    st, a = h.call(Address, pubKey=d, vcn=1)
    if st == 'raise':
        h.check(isinstance(a, ValueError), 'refused with a value error, not %s' % type(a).__name__)
        h.check(want is None, 'a valid public key is accepted')
    else:
        h.check(want is not None, 'an invalid public key is refused')
        if want is not None:
            full, comp = forms(h, *want)
            expect(h, a, full, comp, n == 33, 1, False, 'made from bytes')


def bad_priv(h, compressed):
    """keys out of range"""
    from nbc.wallet.address import Address
    from nbc.util import key
    ecmodel.EC(h)
    k = h.choice('k', [0, ecmodel.N, ecmodel.N + 1, 2 ** 256 - 1])
    kb = k.to_bytes(32, 'big')
    wif = h.run(key.privkey_to_wif, kb + b'\1' if compressed else kb)
    st, a = h.call(Address, privKey=wif, vcn=1)
    h.check(st == 'raise', 'a private key outside [1, n-1] is refused')


def bad_args(h):
    from nbc.wallet.address import Address
    ecmodel.EC(h)
    which = h.choice('which', ['none', 'both', 'empty', 'letter'])
    if which == 'letter':
        c = h.byte('c')
        h.assume(h.not_(h.any(c == 53, c == 75, c == 76)))
        st, a = h.call(Address, privKey=h.concat(h.to_be(c, 1), b'HpHagT65TZzG1PH3CSu63k8DbpvD8s5ip4nEB3kEsreAnchuDf'), vcn=1)
    else:
        w = b'5HpHagT65TZzG1PH3CSu63k8DbpvD8s5ip4nEB3kEsreAnchuDf'
        g = b'\4' + ecmodel.GX.to_bytes(32, 'big') + ecmodel.GY.to_bytes(32, 'big')
        kw = dict(none={}, both=dict(privKey=w, pubKey=g), empty=dict(pubKey=b'', privKey=b''))[which]
        st, a = h.call(Address, vcn=1, **kw)
    h.check(st == 'raise' and isinstance(a, ValueError), 'refused with a value error')


def direct(h, n):
    """the address function itself, any public key bytes and version byte"""
    from nbc.util import key
    pub = h.bytes('pub', n)
    vcn = h.int('vcn', 0, 65535)
    ver = h.bytes('ver', 1)
    st, t = h.call(key.publickey_to_address, pub, vcn, version=ver)
    h.check(st == 'ok', 'an address')
    is_addr(h, t, pub, vcn, ver, 'any key')


def instances(tier):
    out = []
    for c in (False, True):
        for t in (False, True):
            for cv in ('no', 'one', 'back'):
                out.append(Inst('from_priv[%s,%s,%s]' % (c, t, cv), from_priv, dict(compressed=c, testnet=t, convert=cv), alts=8, cost=50, branch_ms=1500))
            out.append(Inst('from_pub[%s,%s]' % (c, t), from_pub, dict(compressed=c, testnet=t), alts=8, cost=20, branch_ms=1500))
        out.append(Inst('generate[%s]' % c, generate, dict(compressed=c), alts=8, cost=30, branch_ms=1500))
        out.append(Inst('bad_priv[%s]' % c, bad_priv, dict(compressed=c)))
    out.append(Inst('chain_number', chain_number, cost=5))
    out.append(Inst('random_chain', random_chain, cost=5))
    out.append(Inst('bad_args', bad_args))
    for n in (0, 1, 2, 32, 33, 34, 64, 65, 66):
        out.append(Inst('bad_pub[%d]' % n, bad_pub, dict(n=n), alts=12, cost=10))
    for n in (33, 65):
        out.append(Inst('direct[%d]' % n, direct, dict(n=n), cost=10))
    return out
