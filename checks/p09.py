"""Transaction and block identities and merkle roots follow the format."""
from symx.inst import Inst
import wire

BOUNDS = ('transactions with 1-3 inputs, 1-3 outputs (quick: 1-2) and scripts of 0-3 bytes or of any length 0-300, all numbers over their full range; headers with every field '
          'arbitrary; merkle trees over 1-9, 12 (quick) / 1-17 (thorough) transactions with arbitrary hashes, and 1-3 real transactions')
OUTSIDE = 'larger transactions and trees; collisions of SHA-256'
ASSUMPTIONS = ['SHA-256 is an uninterpreted function: two digests are equal exactly when the bytes hashed are']


def dsha(h, b):
    return h.sha('sha256', h.sha('sha256', b))


def gen_txn(h, n_in, n_out, slen, pre=''):
    g = wire.Gen(h, lambda p: n_in if p.endswith('tx_in') else n_out, lambda p: slen)
    return g.fields(wire.COMPOUND['Txn'], pre)


def txn(h, n_in, n_out, slen):
    from nbc.protocol import format as F
    vals, b = gen_txn(h, n_in, n_out, slen)
    t = h.run(F.Txn, **vals)
    d = h.run(lambda: t.hash)
    h.check(h.eq(d, dsha(h, b)), 'hash of the serialised transaction')
    h.check(h.eq(h.run(lambda: t.hash), dsha(h, b)), 'asking again gives the same hash')
    h.check(h.eq(h.run(t.binary), b), 'serialisation is unaffected by hashing')
    n, u = h.run(F.Txn.parse, h.concat(b, h.bytes('tail', 3)))
    h.check(h.eq(h.run(lambda: u.hash), dsha(h, b)), 'the parsed transaction has the same hash')


def header(h):
    from nbc.protocol import format as F
    g = wire.Gen(h, lambda p: 1, lambda p: 1)
    spec = wire.COMPOUND['BlockHeader']
    vals, b = g.fields(spec)
    o = h.run(F.BlockHeader, **vals)
    h.check(h.eq(h.run(o.binary), b), 'wire form')
    want = h.concat(h.to_le(vals['version'], 4), vals['prev_block'], vals['merkle_root'], h.to_le(vals['timestamp'], 4), h.to_le(vals['bits'], 4),
                    h.to_le(vals['nonce'], 4))
    h.check(h.eq(h.run(o.binary)[:80], want), '80 header bytes in order, little-endian')
    h.check(h.eq(h.run(lambda: o.hash), dsha(h, want)), 'hash of the 80 bytes')
    h.check(h.eq(h.run(lambda: o.hash), dsha(h, want)), 'asking again gives the same hash')
    n, p = h.run(F.BlockHeader.parse, b)
    h.check(h.eq(h.run(lambda: p.hash), dsha(h, want)), 'the parsed header has the same hash')
    v2 = dict(vals)
    v2['txn_count'] = 7
    q = h.run(F.BlockHeader, **v2)
    h.check(h.eq(h.run(lambda: q.hash), h.run(lambda: o.hash)), 'independent of the transaction count')


def from_block(h, n):
    """header built from a block object"""
    from nbc.protocol import format as F

    class B(object):
        pass
    b = B()
    b.version, b.timestamp, b.bits, b.nonce = [h.int(x, 0, 2 ** 32 - 1) for x in ('version', 'timestamp', 'bits', 'nonce')]
    b.previous_hash, b.merkle_root = h.bytes('prev', 32), h.bytes('root', 32)
    b.transactions = [None] * n
    o = h.run(F.BlockHeader.from_block, b)
    want = h.concat(h.to_le(b.version, 4), b.previous_hash, b.merkle_root, h.to_le(b.timestamp, 4), h.to_le(b.bits, 4), h.to_le(b.nonce, 4))
    h.check(h.eq(h.run(o.binary), h.concat(want, wire.varint(h, n))), 'fields and transaction count')
    h.check(h.eq(h.run(lambda: o.hash), dsha(h, want)), 'hash of the 80 bytes')


def raw_header(h):
    from nbc import util
    v, t, bits, nonce = [h.int(x, 0, 2 ** 32 - 1) for x in ('version', 'timestamp', 'bits', 'nonce')]
    h.assume(v < 2 ** 31)
    p, m = h.bytes('prev', 32), h.bytes('root', 32)
    b = h.run(util.get_block_header, v, p, m, t, bits, nonce)
    h.check(h.eq(b, h.concat(h.to_le(v, 4), p, m, h.to_le(t, 4), h.to_le(bits, 4), h.to_le(nonce, 4))), 'header bytes')


def ref_merkle(h, hs):
    hs = list(hs)
    while len(hs) > 1:
        out = []
        for i in range(0, len(hs), 2):
            a = hs[i]
            b = hs[i + 1] if i + 1 < len(hs) else hs[i]
            out.append(dsha(h, h.concat(a, b)))
        hs = out
    return hs[0]


def merkle(h, n):
    from nbc import util

    class T(object):
        def __init__(self, x):
            self.hash = x
    ts = [T(h.bytes('h%d' % i, 32)) for i in range(n)]
    hs = [t.hash for t in ts]
    r = h.run(util.get_merkle_root, ts)
    h.check(h.eq(r, ref_merkle(h, hs)), 'merkle root')
    h.check(len(ts) == n and all(t.hash is x for t, x in zip(ts, hs)), 'the list is left alone')


def merkle_txns(h, n):
    from nbc import util
    from nbc.protocol import format as F
    ts, hs = [], []
    for i in range(n):
        vals, b = gen_txn(h, 1, 1, 1, 't%d.' % i)
        ts.append(h.run(F.Txn, **vals))
        hs.append(dsha(h, b))
    h.check(h.eq(h.run(util.get_merkle_root, ts), ref_merkle(h, hs)), 'merkle root')
    h.check(h.eq(h.run(util.get_merkle_root, tuple(ts)), ref_merkle(h, hs)), 'merkle root of a tuple')


def instances(tier):
    T = tier == 'thorough'
    out = []
    k = 3 if T else 2
    for i in range(1, k + 1):
        for o in range(1, k + 1):
            for s in (0, 1, 3):
                out.append(Inst('txn[%d,%d,%d]' % (i, o, s), txn, dict(n_in=i, n_out=o, slen=s), cost=i + o))
    out.append(Inst('txn[1,1,0..300]', txn, dict(n_in=1, n_out=1, slen=(0, 300)), cost=20))
    out.append(Inst('header', header, {}))
    for n in (0, 1, 252, 253, 70000):
        out.append(Inst('from_block[%d]' % n, from_block, dict(n=n)))
    out.append(Inst('raw_header', raw_header, {}))
    for n in (range(1, 18) if T else list(range(1, 10)) + [12]):
        out.append(Inst('merkle[%d]' % n, merkle, dict(n=n), cost=n))
    for n in (1, 2, 3) + ((5,) if T else ()):
        out.append(Inst('merkle_txns[%d]' % n, merkle_txns, dict(n=n), cost=n))
    return out
