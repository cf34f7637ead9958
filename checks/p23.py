"""The AES block cipher is FIPS-197 AES for every key and block."""
from symx.inst import Inst
import aesref

BOUNDS = 'every 128-, 192- and 256-bit key and every block, all rounds; keys of 0-40 bytes and blocks of 0-20 bytes for the refusals'
OUTSIDE = 'timing; the modes built on the cipher (P24)'
ASSUMPTIONS = ['exclusive-or is decided by a normal form over GF(2) in which the S-box and its inverse are atoms; tables are compared with the S-box entry by entry']


def words(h, name, n, kind):
    b = h.noise(name, n)
    return b if kind == 'bytes' else list(h.cells(b))


def both(h, n, kind):
    from nbc.util.pyaes import aes
    aesref.use(h)
    key, block = h.noise('key', n), words(h, 'block', 16, kind)
    a = h.run(aes.AES, key)
    k, b = h.cells(key), list(block) if isinstance(block, list) else h.cells(block)
    c = h.run(a.encrypt, block)
    h.check(len(c) == 16, '16 bytes of ciphertext')
    want = h.run(aesref.encrypt, k, b)
    for i in range(16):
        h.check(c[i] == want[i], 'encryption is FIPS-197')
    p = h.run(a.decrypt, block)
    h.check(len(p) == 16, '16 bytes of plaintext')
    want = h.run(aesref.decrypt, k, b)
    for i in range(16):
        h.check(p[i] == want[i], 'decryption is FIPS-197')
    q = h.run(a.decrypt, list(c))
    for i in range(16):
        h.check(q[i] == b[i], 'decrypting what was encrypted gives it back')
    q = h.run(a.encrypt, list(p))
    for i in range(16):
        h.check(q[i] == b[i], 'encrypting what was decrypted gives it back')


def fresh(h, n):
    """two ciphers at work do not disturb each other, and the arguments are left alone"""
    from nbc.util.pyaes import aes
    aesref.use(h)
    k1, k2 = h.noise('k1', n), h.noise('k2', n)
    b1, b2 = list(h.cells(h.noise('b1', 16))), list(h.cells(h.noise('b2', 16)))
    x, y = h.run(aes.AES, k1), h.run(aes.AES, k2)
    keep = list(b1)
    h.run(x.encrypt, b1)
    h.run(y.decrypt, b2)
    c = h.run(x.encrypt, b1)
    p = h.run(y.decrypt, b1)
    want, w2 = h.run(aesref.encrypt, h.cells(k1), keep), h.run(aesref.decrypt, h.cells(k2), keep)
    h.check(h.all(*[u == v for u, v in zip(b1, keep)]), 'the block passed in is not changed')
    for i in range(16):
        h.check(c[i] == want[i], 'encryption after other calls')
        h.check(p[i] == w2[i], 'decryption after other calls')


def sizes(h, n):
    from nbc.util.pyaes import aes
    aesref.use(h)
    key = h.bytes('key', n)
    st, a = h.call(aes.AES, key)
    if n in (16, 24, 32):
        h.check(st == 'ok', 'a key of a valid size')
        m = h.choice('m', [0, 1, 15, 17, 20, 32])
        b = [0] * m
        for f in (a.encrypt, a.decrypt):
            s2, e = h.call(f, b)
            h.check(s2 == 'raise' and isinstance(e, ValueError), 'a block of another size is refused')
    else:
        h.check(st == 'raise' and isinstance(a, ValueError), 'a key of another size is refused')


def instances(tier):
    out = []
    o = dict(alts=24, opaque_xor=True, witnesses=2)
    for n in (16, 24, 32):
        out.append(Inst('both[%d,list]' % n, both, dict(n=n, kind='list'), cost=n, **o))
        if n == 16 or tier == 'thorough':
            out.append(Inst('both[%d,bytes]' % n, both, dict(n=n, kind='bytes'), cost=n, **o))
        out.append(Inst('fresh[%d]' % n, fresh, dict(n=n), cost=n, **o))
    for n in range(41):
        if n in (0, 1, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40) or tier == 'thorough':
            out.append(Inst('sizes[%d]' % n, sizes, dict(n=n), opaque_xor=True))
    return out
