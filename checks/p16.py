"""Extended keys round-trip in BIP32 layout and corruption is refused."""
from symx.inst import Inst
import b58model
import ecmodel
import p15
N = ecmodel.N

BOUNDS = ('export and import of every wallet (every private or public key, chain code, depth, parent fingerprint, child number, network, chain number); '
          'import of every text whose decoded form has 82 bytes, or 0-4, 77-81, 83-86 bytes; arbitrary texts of up to 3 characters')
OUTSIDE = 'base58 itself, used as its contract here (P10); square root and curve membership themselves (P21, P22); other decoded lengths'
ASSUMPTIONS = ['SHA-256 is a deterministic function of its input bytes',
               'secp256k1 is an abstract group of prime order n with compressed coordinates as uninterpreted functions of the logarithm']

VERSIONS = {0x0488B21E: (False, False), 0x0488ADE4: (False, True), 0x043587CF: (True, False), 0x04358394: (True, True)}  # (testnet, private)


def number(testnet, private):
    return [v for v, k in VERSIONS.items() if k == (testnet, private)][0]


def dsha(h, d):
    return h.sha('sha256', h.sha('sha256', d))


def attrs(h):
    d = h.int('depth', 0, 255)
    fp, cn = h.noise('fp', 4), h.int('cn', 0, 2 ** 32 - 1)
    return dict(vcn=h.int('vcn', 0, 65535), testnet=h.choice('testnet', [False, True]), depth=d, parentfp=fp, childnum=cn)


def layout(h, ec, k, chain, a, private):
    v = number(a['testnet'], private).to_bytes(4, 'big')
    fp = a['parentfp']
    if a['depth'] == 0:
        fp = b'\0\0\0\0'      # a master key has no parent
    data = h.concat(b'\0', h.to_be(k, 32)) if private else p15.comp(h, ec, k)
    return h.concat(v, h.to_be(a['depth'], 1), fp, h.to_be(a['childnum'], 4), chain, data), fp


def export(h, wallet, private):
    from nbc.util import base58
    from nbc.wallet.hdwallet import HDWallet
    ec = ecmodel.EC(h)
    b58model.install(h)
    k, chain, a = h.scalar('k', N), h.noise('chain', 32), attrs(h)
    w = p15.wallet(h, ec, k, chain, wallet, a)
    st, t = h.call(w.to_extended_key, private)
    if private and not wallet:
        h.check(st == 'raise', 'no private extended key without the private key')
        return
    h.check(st == 'ok', 'an extended key')
    if st != 'ok':
        return
    want, fp = layout(h, ec, k, chain, a, private)
    s2, raw = h.call(base58.b58decode, t)
    h.check(s2 == 'ok' and h.len(raw) == 82, 'base58 of 82 bytes')
    h.check(h.eq(raw[:78], want), 'the BIP32 layout')
    h.check(h.eq(raw[78:], dsha(h, raw[:78])[:4]), 'the checksum')
    st, c = h.call(HDWallet.from_extended_key, t, vcn=a['vcn'])
    h.check(st == 'ok', 'an exported key imports')
    if st == 'ok':
        p15.same_wallet(h, ec, c, k, chain, private, a['vcn'], a['testnet'], a['depth'], fp, a['childnum'], 'imported')


def verdict(h, n, as_text=False, head=None):
    """any text, given by its decoded bytes"""
    from nbc.util import base58
    from nbc.wallet.hdwallet import HDWallet
    ec = ecmodel.EC(h)
    b58model.install(h)
    if n == 82:
        raw = h.concat(h.bytes('head', 13), h.noise('chain', 32), h.bytes('kind', 1), h.noise('data', 32), h.noise('sum', 4))
    else:
        raw = h.bytes('raw', n)
    text = h.run(base58.b58encode, raw)
    if as_text:
        text = h.from_cells('s', h.cells(text))
    vcn = h.int('vcn', 0, 65535)
    st, w = h.call(HDWallet.from_extended_key, text, vcn=vcn)
    if n != 82:
        h.check(st == 'raise', 'another length is refused')
        return
    good, kind, k, pt = h.eq(raw[78:], dsha(h, raw[:78])[:4]), h.cells(raw)[45], None, None
    version = h.be(raw[:4])
    x = h.be(raw[46:78])
    if good:
        for v, (testnet, private) in VERSIONS.items():
            if version == v:
                if private:
                    good = h.all(kind == 0, x >= 1, x < N)
                else:
                    good = h.any(kind == 2, kind == 3)
                    if good:
                        pt = ec.lift(x)
                        good = pt is not None
                break
        else:
            good = False
    if st == 'raise':
        h.check(h.not_(good), 'a valid extended key imports')
        return
    h.check(good, 'refused when checksum, version or key data is wrong')
    if good:
        if private:
            h.check(h.eq(h.run(w.prvkey), raw[46:78]), 'the private key')
        else:
            y = h.ite(h.run(lambda: pt[0] % 2 == kind % 2), pt[0], pt[1])
            h.check(h.run(w.prvkey) is None, 'no private key')
            h.check(h.eq(h.run(w.pubkey), h.concat(raw[46:78], h.to_be(y, 32))), 'the public key')
        h.check(h.eq(h.run(w.chain), raw[13:45]), 'the chain code')
        h.check(h.run(w.depth) == h.cells(raw)[4], 'the depth')
        h.check(h.run(w.childnum) == h.be(raw[9:13]), 'the child number')
        h.check(w._testnet == testnet, 'the network')
        h.check(w.vcn == vcn, 'the chain number')
        h.check(h.eq(h.run(w.parentfp), h.ite(h.cells(raw)[4] == 0, b'\0\0\0\0', raw[5:9])
                if not h.symbolic else (b'\0\0\0\0' if h.cells(raw)[4] == 0 else raw[5:9])), 'the parent fingerprint')


def any_text(h, n, kind):
    from nbc.wallet.hdwallet import HDWallet
    ecmodel.EC(h)
    t = h.bytes('text', n) if kind == 'b' else h.str('text', n, 0, 255)
    st, r = h.call(HDWallet.from_extended_key, t, vcn=0)
    h.check(st == 'raise', 'refused')


def instances(tier):
    out = []
    for w in (True, False):
        for p in (True, False):
            out.append(Inst('export[%s,%s]' % (w, p), export, dict(wallet=w, private=p), alts=8, branch_ms=1500, check_ms=30000, cost=10))
    for t in (False, True):
        out.append(Inst('verdict[82,%s]' % t, verdict, dict(n=82, as_text=t), alts=8, branch_ms=1500, check_ms=30000, cost=20))
    for n in (0, 1, 2, 3, 4, 77, 78, 79, 80, 81, 83, 84, 86):
        out.append(Inst('verdict[%d]' % n, verdict, dict(n=n), alts=4))
    for n in range(4):
        for k in 'bs':
            out.append(Inst('any_text[%d,%s]' % (n, k), any_text, dict(n=n, kind=k)))
    return out
