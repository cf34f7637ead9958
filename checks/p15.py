"""HD child derivation follows BIP32 and commutes with going public."""
from symx.inst import Inst
import ecmodel
N = ecmodel.N

BOUNDS = ('one derivation step for every private key, public key, chain code, index, depth 0-255, chain number, parent fingerprint and network; '
          'two consecutive steps starting with a hardened one (quick) / any two or three (thorough); HMAC-SHA512 and the hashes uninterpreted')
OUTSIDE = ('the curve arithmetic and square root themselves (P21, P22); master seeds whose left half is 0 or >= n (BIP32 calls them invalid, '
           'the code reduces the second kind)')
ASSUMPTIONS = ['HMAC-SHA512, SHA-256 and RIPEMD-160 are deterministic functions of their input',
               'secp256k1 is an abstract group of prime order n with compressed coordinates as uninterpreted functions of the logarithm']


def comp(h, ec, k):
    x, y = ec.xy(k)
    return h.concat(h.to_be(2 + h.run(lambda: y % 2), 1), h.to_be(x, 32))


def fingerprint(h, ec, k):
    return h.sha('ripemd160', h.sha('sha256', comp(h, ec, k)))[:4]


def attrs(h, depth_hi=254):
    return dict(vcn=h.int('vcn', 0, 65535), testnet=h.choice('testnet', [False, True]), depth=h.int('depth', 0, depth_hi),
                parentfp=h.noise('fp', 4), childnum=h.int('cn', 0, 2 ** 32 - 1))


def wallet(h, ec, k, chain, private, a):
    from nbc.wallet.hdwallet import HDWallet
    return h.run(HDWallet, k if private else ec.point(k), chain, **a)


def step(h, ec, k, chain, i, hard):
    """BIP32 CKD: (child scalar or None, child chain)"""
    ib = h.to_be(i, 4)
    msg = h.concat(b'\0', h.to_be(k, 32), ib) if hard else h.concat(comp(h, ec, k), ib)
    I = h.hmac('sha512', chain, msg)
    il = h.be(I[:32])
    if il >= N:
        return None, None
    c = h.run(lambda: (k + il) % N)
    return (None if c == 0 else c), I[32:]


def same_wallet(h, ec, w, k, chain, private, vcn, testnet, depth, fp, cn, label):
    if private:
        p = h.run(w.prvkey)
        h.check(p is not None and h.eq(p, h.to_be(k, 32)), label + ': private key')
    else:
        h.check(h.run(w.prvkey) is None, label + ': no private key')
    x, y = ec.xy(k)
    h.check(h.eq(h.run(w.pubkey), h.concat(h.to_be(x, 32), h.to_be(y, 32))), label + ': public key')
    h.check(h.eq(h.run(w.chain), chain), label + ': chain code')
    h.check(h.run(w.depth) == depth, label + ': depth')
    h.check(h.eq(h.run(w.parentfp), fp), label + ': parent fingerprint')
    h.check(h.run(w.childnum) == cn, label + ': child number')
    h.check(w.vcn == vcn, label + ': chain number')
    h.check(w._testnet == testnet, label + ': network')


def index(h, hard, name='i'):
    return h.int(name, 2 ** 31, 2 ** 32 - 1) if hard else h.int(name, 0, 2 ** 31 - 1)


def derive(h, private, hard):
    ec = ecmodel.EC(h)
    k, chain, a = h.scalar('k', N), h.noise('chain', 32), attrs(h)
    i = index(h, hard)
    w = wallet(h, ec, k, chain, private, a)
    st, c = h.call(w.child, i)
    if hard and not private:
        h.check(st == 'raise', 'hardened derivation needs the private key')
        return
    ck, cc = step(h, ec, k, chain, i, hard)
    if ck is None:
        h.check(st == 'raise', 'an invalid child is refused')
        return
    h.check(st == 'ok', 'a valid child is derived')
    if st != 'ok':
        return
    same_wallet(h, ec, c, ck, cc, private, a['vcn'], a['testnet'], a['depth'] + 1, fingerprint(h, ec, k), i, 'child')


def commute(h):
    ec = ecmodel.EC(h)
    k, chain, a = h.scalar('k', N), h.noise('chain', 32), attrs(h)
    i = index(h, False)
    s1, c1 = h.call(wallet(h, ec, k, chain, True, a).child, i)
    s2, c2 = h.call(wallet(h, ec, k, chain, False, a).child, i)
    h.check(s1 == s2, 'both derivations succeed or both are refused')
    if s1 == 'ok' and s2 == 'ok':
        h.check(h.eq(h.run(c1.pubkey), h.run(c2.pubkey)), 'same public key')
        h.check(h.all(h.eq(h.run(c1.chain), h.run(c2.chain)), h.run(c1.depth) == h.run(c2.depth), h.eq(h.run(c1.parentfp), h.run(c2.parentfp)),
                      h.run(c1.childnum) == h.run(c2.childnum), c1.vcn == c2.vcn, c1._testnet == c2._testnet), 'same public part')


def path(h, private, hards):
    ec = ecmodel.EC(h)
    k, chain = h.scalar('k', N), h.noise('chain', 32)
    from nbc.wallet.hdwallet import HDWallet
    w = h.run(HDWallet, k if private else ec.point(k), chain, vcn=h.int('vcn', 0, 65535))
    vcn, fp, cn, depth = w.vcn, b'\0' * 4, 0, 0
    same_wallet(h, ec, w, k, chain, private, vcn, False, 0, fp, 0, 'master')
    for n, hard in enumerate(hards):
        i = index(h, hard, 'i%d' % n)
        st, c = h.call(w.child, i)
        ck, cc = step(h, ec, k, chain, i, hard)
        if ck is None:
            h.check(st == 'raise', 'an invalid child is refused')
            return
        h.check(st == 'ok', 'a valid child is derived')
        if st != 'ok':
            return
        fp = fingerprint(h, ec, k)
        k, chain, w, depth = ck, cc, c, depth + 1
        same_wallet(h, ec, w, k, chain, private, vcn, False, depth, fp, i, 'step %d' % (n + 1))


def limits(h, private, what):
    ec = ecmodel.EC(h)
    k, chain, a = h.scalar('k', N), h.noise('chain', 32), attrs(h, 255)
    if what == 'depth':
        h.assume(a['depth'] == 255)
        i = h.int('i', 0, 2 ** 32 - 1)
    elif what == 'above':
        i = h.int('i', 2 ** 32, 2 ** 40)
    else:
        i = h.int('i', -2 ** 40, -1)
    w = wallet(h, ec, k, chain, private, a)
    st, c = h.call(w.child, i)
    h.check(st == 'raise', 'derivation beyond the limits is refused')


def deep(h):
    """a wallet cannot be made at a depth beyond 255"""
    ec = ecmodel.EC(h)
    k, chain, a = h.scalar('k', N), h.noise('chain', 32), attrs(h)
    a['depth'] = h.int('d', 0, 600)
    from nbc.wallet.hdwallet import HDWallet
    st, w = h.call(HDWallet, k, chain, **a)
    h.check((st == 'ok') == bool(a['depth'] <= 255), 'depths 0-255')


def make(h):
    """private keys outside [1, n-1] are refused"""
    from nbc.wallet.hdwallet import HDWallet
    ecmodel.EC(h)
    k = h.int('key', -5, 2 ** 256)
    st, w = h.call(HDWallet, k, b'c' * 32, vcn=1)
    h.check((st == 'ok') == bool(h.all(k >= 1, k < N)), 'private keys are in [1, n-1]')


def master(h, n, text):
    from nbc.wallet.hdwallet import HDWallet
    ec = ecmodel.EC(h)
    seed = h.str('seed', n, 0, 255) if text else h.bytes('seed', n)
    raw = h.from_cells('b', h.cells(seed))
    I = h.hmac('sha512', b'Bitcoin seed', raw)
    il = h.be(I[:32])
    vcn = h.int('vcn', 0, 65535)
    st, w = h.call(HDWallet.from_master_seed, seed, vcn=vcn, testnet=h.choice('t', [False, True]))
    if il == 0:
        h.check(st == 'raise', 'a zero master key is refused')
    elif il < N:
        h.check(st == 'ok', 'a master wallet')
        h.check(h.all(h.eq(h.run(w.prvkey), I[:32]), h.eq(h.run(w.chain), I[32:])), 'the halves of the HMAC')
        h.check(h.all(h.run(w.depth) == 0, h.run(w.childnum) == 0, h.eq(h.run(w.parentfp), b'\0\0\0\0'), w.vcn == vcn), 'a master wallet has depth 0, no parent')


def fp_addr(h, private):
    from nbc.util import key
    ec = ecmodel.EC(h)
    k, chain, a = h.scalar('k', N), h.noise('chain', 32), attrs(h)
    w = wallet(h, ec, k, chain, private, a)
    h.check(h.eq(h.run(w.fingerprint), fingerprint(h, ec, k)), 'fingerprint')
    import p13
    c = comp(h, ec, k)
    p13.is_addr(h, h.run(w.address), c, a['vcn'], b'\x6f' if a['testnet'] else b'\0', 'HD wallet')


def instances(tier):
    out = []
    for p in (True, False):
        for hd in (True, False):
            out.append(Inst('derive[%s,%s]' % (p, hd), derive, dict(private=p, hard=hd), alts=8, branch_ms=1500, check_ms=30000))
        for w in ('depth', 'above', 'below'):
            out.append(Inst('limits[%s,%s]' % (p, w), limits, dict(private=p, what=w), alts=3))
        out.append(Inst('fp_addr[%s]' % p, fp_addr, dict(private=p), alts=6))
    out.append(Inst('commute', commute, alts=8, branch_ms=1500, check_ms=30000))
    paths = [(True, (True, False)), (True, (True, True))]
    if tier == 'thorough':
        paths += [(True, (False, False)), (True, (False, True)), (False, (False, False))] + [(True, (a, b, c)) for a in (False, True) for b in (False, True) for c in (False, True)] + [(False, (False,) * 3)]
    for p, hs in paths:
        out.append(Inst('path[%s,%s]' % (p, ''.join('hn'[not x] for x in hs)), path, dict(private=p, hards=hs), alts=8, branch_ms=1500, check_ms=30000, cost=5 * len(hs)))
    out.append(Inst('deep', deep))
    out.append(Inst('make', make))
    for n in (0, 1, 16, 32, 64):
        for t in (False, True):
            out.append(Inst('master[%d,%s]' % (n, t), master, dict(n=n, text=t)))
    return out
