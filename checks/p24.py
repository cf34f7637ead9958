"""Cipher modes are those of SP 800-38A and decrypt what they encrypt."""
from symx.inst import Inst
import aesmodel as A

BOUNDS = ('keys of 16, 24 and 32 bytes, every initial vector, counter start and data byte; CBC 1-4 blocks, CFB segments of 1-16 bytes and 1-4 segments, '
          'OFB and CTR data of up to 40 bytes in every split into up to three calls (quick: two calls beyond 20 bytes), single calls of 100, 300, 1100 (thorough: 4200) bytes; refused lengths 0-40')
OUTSIDE = 'the block function, an arbitrary keyed bijection here (P23); the feeder (P25)'
ASSUMPTIONS = ['the AES block function is a keyed bijection on 16-byte blocks']


def key_iv(h, klen=16, iv='given'):
    E, D = A.install(h)
    key = h.noise('key', klen)
    v = h.noise('iv', 16) if iv == 'given' else None
    return E, D, key, v, h.cells(v) if v is not None else [0] * 16


def same(h, got, want, label):
    h.check(h.len(got) == len(want), label + ': length')
    h.check(h.eq(got, h.from_cells('b', want)), label)


def calls(h, f, parts):
    out = None
    for p in parts:
        st, r = h.call(f, p)
        h.check(st == 'ok', 'the mode takes it')
        if st != 'ok':
            return None
        out = r if out is None else h.concat(out, r)
    return out


def ecb(h, n, klen):
    from nbc.util.pyaes import aes
    E, D, key, _, _ = key_iv(h, klen)
    m, m2 = h.run(aes.AESModeOfOperationECB, key), h.run(aes.AESModeOfOperationECB, key)
    data = h.noise('data', 16 * n)
    c = calls(h, m.encrypt, [data[16 * i:16 * i + 16] for i in range(n)])
    same(h, c, A.ecb(h, E, key, h.cells(data)), 'ECB ciphertext')
    same(h, calls(h, m2.decrypt, [c[16 * i:16 * i + 16] for i in range(n)]), h.cells(data), 'ECB round trip')
    other = h.noise('other', 16)
    same(h, calls(h, m2.decrypt, [other]), A.ecb(h, D, key, h.cells(other)), 'ECB decryption of any block')


def cbc(h, n, klen, iv):
    from nbc.util.pyaes import aes
    E, D, key, v, ivc = key_iv(h, klen, iv)
    make = lambda: h.run(aes.AESModeOfOperationCBC, key) if iv == 'default' else h.run(aes.AESModeOfOperationCBC, key, v)
    m, m2, m3 = make(), make(), make()
    data = h.noise('data', 16 * n)
    blocks = [data[16 * i:16 * i + 16] for i in range(n)]
    c = calls(h, m.encrypt, blocks)
    same(h, c, A.cbc_enc(h, E, key, ivc, h.cells(data)), 'CBC ciphertext')
    same(h, calls(h, m2.decrypt, [c[16 * i:16 * i + 16] for i in range(n)]), h.cells(data), 'CBC round trip')
    same(h, calls(h, m3.decrypt, blocks), A.cbc_dec(h, D, key, ivc, h.cells(data)), 'CBC decryption of any blocks')


def split(h, data, total, cuts, step=1):
    """data in calls of every size (multiples of step)"""
    parts, at = [], 0
    for i in range(cuts):
        c = step * h.choice('cut%d' % i, range(0, (total - at) // step + 1))
        parts.append(data[at:at + c])
        at += c
    parts.append(data[at:total])
    return parts


def cfb(h, seg, n, iv, cuts):
    from nbc.util.pyaes import aes
    E, D, key, v, ivc = key_iv(h, 16, iv)
    kw = {} if seg == 'default' else dict(segment_size=seg)
    s = seg if seg not in ('default', 0) else 1
    make = lambda: h.run(aes.AESModeOfOperationCFB, key, v, **kw)
    m, m2, m3 = make(), make(), make()
    total = s * n
    data = h.noise('data', total)
    parts = split(h, data, total, cuts, s)
    c = calls(h, m.encrypt, parts)
    same(h, c, A.cfb(h, E, key, ivc, h.cells(data), s, False), 'CFB ciphertext')
    same(h, calls(h, m2.decrypt, split(h, c, total, min(cuts, 1), s)), h.cells(data), 'CFB round trip')
    same(h, calls(h, m3.decrypt, parts), A.cfb(h, E, key, ivc, h.cells(data), s, True), 'CFB decryption of any data')


def ofb(h, total, iv, cuts):
    from nbc.util.pyaes import aes
    E, D, key, v, ivc = key_iv(h, 16, iv)
    make = lambda: h.run(aes.AESModeOfOperationOFB, key) if iv == 'default' else h.run(aes.AESModeOfOperationOFB, key, v)
    m, m2 = make(), make()
    data = h.noise('data', total)
    c = calls(h, m.encrypt, split(h, data, total, cuts))
    same(h, c, A.ofb(h, E, key, ivc, h.cells(data)), 'OFB ciphertext')
    same(h, calls(h, m2.decrypt, [c]), h.cells(data), 'OFB round trip')


def ctr(h, total, start, cuts):
    from nbc.util.pyaes import aes
    E, D = A.install(h, prove=True)
    key = h.noise('key', 16)
    if start == 'default':
        v, make = 1, lambda: h.run(aes.AESModeOfOperationCTR, key)
    else:
        if start == 'wrap':
            v = h.int('start', 2 ** 128 - 3, 2 ** 128 - 1)
        else:
            v = h.be(h.bytes('start', 16))
        make = lambda: h.run(aes.AESModeOfOperationCTR, key, counter=h.run(aes.Counter, v))
    m, m2 = make(), make()
    data = h.noise('data', total)
    c = calls(h, m.encrypt, split(h, data, total, cuts))
    same(h, c, A.ctr(h, E, key, v, h.cells(data)), 'CTR ciphertext')
    same(h, calls(h, m2.decrypt, [c]), h.cells(data), 'CTR round trip')


def counter(h, steps):
    from nbc.util.pyaes import aes
    v = h.be(h.bytes('v', 16))
    c = h.run(aes.Counter, v)
    for i in range(steps + 1):
        got = h.run(lambda: c.value)
        h.check(len(got) == 16, 'a counter of 16 bytes')
        h.check(h.be(h.from_cells('b', got)) == h.run(lambda: (v + i) % 2 ** 128), 'the counter advances by one and wraps')
        h.run(c.increment)


def refused(h, mode, n):
    """lengths a mode cannot process"""
    from nbc.util.pyaes import aes
    A.install(h)
    key, data = h.noise('key', 16), h.noise('data', n)
    if mode in ('ECB', 'CBC'):
        m = h.run(getattr(aes, 'AESModeOfOperation' + mode), key)
        ok = n == 16
    else:
        m = h.run(aes.AESModeOfOperationCFB, key, None, segment_size=mode)
        ok = n % mode == 0
    for f in (m.encrypt, m.decrypt):
        st, r = h.call(f, data)
        h.check((st == 'ok') == ok, 'exactly the lengths the mode can process')
        if st == 'ok':
            h.check(h.len(r) == n, 'as many bytes out as in')
        else:
            h.check(isinstance(r, ValueError), 'refused with a value error')


def bad_iv(h, mode, n):
    from nbc.util.pyaes import aes
    A.install(h)
    key, iv = h.noise('key', 16), h.noise('iv', n)
    st, m = h.call(getattr(aes, 'AESModeOfOperation' + mode), key, iv)
    h.check((st == 'ok') == (n == 16), 'only initial vectors of 16 bytes')
    if st != 'ok':
        h.check(isinstance(m, ValueError), 'refused with a value error')


def bad_segment(h, mode):
    """a segment larger than the block, or negative, cannot be processed"""
    from nbc.util.pyaes import aes
    A.install(h)
    key = h.noise('key', 16)
    n = h.int('segment', -8, 40)
    h.assume(h.any(n < 0, n > 16))
    st, m = h.call(aes.AESModeOfOperationCFB, key, None, segment_size=n)
    if st == 'ok':
        n = [i for i in range(-8, 41) if n == i][0]
        data = h.noise('data', abs(n))
        st, m = h.call(m.encrypt, data)
        h.check(st == 'raise' or h.len(m) == abs(n), 'no data is lost')
    if st == 'raise':
        h.check(isinstance(m, ValueError), 'refused with a value error')


def instances(tier):
    deep = tier == 'thorough'
    out = []
    o = dict(opaque_xor=True, alts=3, witnesses=2)
    for k in (16, 24, 32):
        for n in (1, 3):
            out.append(Inst('ecb[%d,%d]' % (n, k), ecb, dict(n=n, klen=k), **o))
        for n in (1, 2, 4):
            for iv in ('given', 'default'):
                if k == 16 or n == 2:
                    out.append(Inst('cbc[%d,%d,%s]' % (n, k, iv), cbc, dict(n=n, klen=k, iv=iv), **o))
    for s in ['default', 0] + list(range(1, 17)):
        for n in (0, 1, 2, 4) if not deep else range(8):
            if n == 4 and s not in (1, 5, 8, 16) and not deep:
                continue
            out.append(Inst('cfb[%s,%d]' % (s, n), cfb, dict(seg=s, n=n, iv='given' if s != 3 else 'default', cuts=min(n, 2)), **o))
    out.append(Inst('cfb[1,20]', cfb, dict(seg=1, n=20, iv='given', cuts=0), **o))
    for L in (0, 1, 15, 16, 17, 20, 33, 40):
        cuts = 1 if L > 20 and not deep else min(2, L)
        for iv in ('given', 'default'):
            if iv == 'given' or L == 17:
                out.append(Inst('ofb[%d,%s]' % (L, iv), ofb, dict(total=L, iv=iv, cuts=cuts), cost=L * 20, **o))
        for st in ('any', 'default', 'wrap'):
            if st != 'default' or L == 17:
                if st == 'any' and L not in (0, 1, 16, 33) and not deep:
                    continue
                c = min(cuts, 1) if st != 'any' else 0 if L > 1 else 1
                out.append(Inst('ctr[%d,%s]' % (L, st), ctr, dict(total=L, start=st, cuts=c), cost=L * 20, **o))
    for L in (100, 300, 1100) + ((4200,) if deep else ()):
        out.append(Inst('ofb[%d]' % L, ofb, dict(total=L, iv='given', cuts=0), cost=L, **o))
        out.append(Inst('ctr[%d]' % L, ctr, dict(total=L, start='default', cuts=0), cost=L, **o))
        for seg in (1, 2, 5, 8, 16):
            out.append(Inst('cfb[%d,%d]' % (seg, L // seg), cfb, dict(seg=seg, n=L // seg, iv='given', cuts=0), cost=L, **o))
    for n in (1, 3) if not deep else (1, 3, 20):
        out.append(Inst('counter[%d]' % n, counter, dict(steps=n), **o))
    for n in range(0, 41, 1 if deep else 1):
        for m in ('ECB', 'CBC', 1, 3, 16):
            if deep or n < 20 or n in (31, 32, 33):
                out.append(Inst('refused[%s,%d]' % (m, n), refused, dict(mode=m, n=n), **o))
    for m in ('CBC', 'CFB', 'OFB'):
        for n in (0, 1, 15, 16, 17, 32):
            out.append(Inst('bad_iv[%s,%d]' % (m, n), bad_iv, dict(mode=m, n=n), **o))
    out.append(Inst('bad_segment', bad_segment, dict(mode='CFB'), **o))
    return out
