"""Padding and the streaming feeder."""
from symx.inst import Inst
import aesmodel as A

BOUNDS = ('padding of every data of 0-40 bytes, unpadding of every data of 0-49 bytes; feeders of all five modes (CFB segments 1-16) over data of '
          '0-50 bytes in every split into two pieces, every split into three for up to 20 bytes, and byte by byte; quick: a selection of the lengths')
OUTSIDE = 'the block function (P23) and the modes against their standard (P24); an empty piece ends the stream, by design'
ASSUMPTIONS = ['the AES block function is a keyed bijection on 16-byte blocks']


def same(h, got, want, label):
    h.check(h.len(got) == len(want), label + ': length')
    h.check(h.eq(got, h.from_cells('b', want)), label)


def pad(h, n):
    from nbc.util.pyaes import util
    data = h.noise('data', n)
    p = h.run(util.append_PKCS7_padding, data)
    k = 16 - n % 16
    same(h, p, list(h.cells(data)) + [k] * k, 'whole blocks, the pad length repeated')
    same(h, h.run(util.strip_PKCS7_padding, p), h.cells(data), 'stripping returns the data')


def strip(h, n):
    from nbc.util.pyaes import util
    data = h.bytes('data', n)
    st, r = h.call(util.strip_PKCS7_padding, data)
    c = h.cells(data)
    if st == 'raise':
        h.check(isinstance(r, ValueError), 'refused with a value error')
        if n and n % 16 == 0:
            for k in range(1, 17):
                h.check(h.not_(h.all(*[x == k for x in c[n - k:]])), 'correct padding is accepted')
    else:
        h.check(n > 0 and n % 16 == 0, 'only whole blocks')
        m = h.len(r)
        k = n - m
        h.check(1 <= k <= 16, 'between one and sixteen bytes stripped')
        if 1 <= k <= 16:
            h.check(h.all(*[x == k for x in c[m:]]), 'only correct padding')
            same(h, r, c[:m], 'the rest is the data')


def mode(h, name, key, v):
    from nbc.util import pyaes
    if name == 'ecb':
        return h.run(pyaes.AESModeOfOperationECB, key)
    if name == 'ctr':
        return h.run(pyaes.AESModeOfOperationCTR, key)
    if name.startswith('cfb'):
        return h.run(pyaes.AESModeOfOperationCFB, key, v, segment_size=int(name[3:]))
    return h.run(getattr(pyaes, 'AESModeOfOperation' + name.upper()), key, v)


def cipher(h, name, E, key, v, data):
    """reference ciphertext of the (padded) data"""
    iv = list(h.cells(v))
    data = list(data)
    if name in ('ecb', 'cbc'):
        k = 16 - len(data) % 16
        data = data + [k] * k
        return A.ecb(h, E, key, data) if name == 'ecb' else A.cbc_enc(h, E, key, iv, data)
    if name == 'ofb':
        return A.ofb(h, E, key, iv, data)
    if name == 'ctr':
        return A.ctr(h, E, key, 1, data)
    return A.cfb(h, E, key, iv, data, int(name[3:]), False)


def split(h, data, total, cuts):
    if cuts == 'bytes':
        return [data[i:i + 1] for i in range(total)]
    parts, at = [], 0
    for i in range(cuts):
        if total - at < 2:
            break
        c = h.choice('cut%d' % i, range(1, total - at))
        parts.append(data[at:at + c])
        at += c
    if total - at:
        parts.append(data[at:total])
    return parts


def drive(h, feeder, parts, last, label):
    out = b''
    for p in parts:
        st, r = h.call(feeder.feed, p)
        h.check(st == 'ok', label + ' takes it')
        if st != 'ok':
            return None
        out = h.concat(out, r)
    st, r = h.call(feeder.feed) if last == 'none' else h.call(feeder.feed, b'')
    h.check(st == 'ok', label + ' finishes')
    if st != 'ok':
        return None
    out = h.concat(out, r)
    for x in (b'x', b'', None):
        st, r = h.call(feeder.feed, x)
        h.check(st == 'raise' and isinstance(r, ValueError), label + ' refuses data once finished')
    return out


def setup(h):
    E, D = A.install(h)
    return E, D, h.noise('key', 16), h.noise('iv', 16)


def encrypt(h, name, total, cuts, last):
    from nbc.util import pyaes
    E, D, key, v = setup(h)
    data = h.noise('data', total)
    out = drive(h, h.run(pyaes.Encrypter, mode(h, name, key, v)), split(h, data, total, cuts), last, 'the encrypter')
    if out is not None:
        same(h, out, cipher(h, name, E, key, v, h.cells(data)), 'the ciphertext of the whole, whatever the pieces')
        back = drive(h, h.run(pyaes.Decrypter, mode(h, name, key, v)), [out] if h.len(out) else [], last, 'the decrypter')
        if back is not None:
            same(h, back, h.cells(data), 'the data comes back')


def decrypt(h, name, total, cuts, last):
    from nbc.util import pyaes
    E, D, key, v = setup(h)
    data = h.noise('data', total)
    c = h.from_cells('b', cipher(h, name, E, key, v, h.cells(data)))
    back = drive(h, h.run(pyaes.Decrypter, mode(h, name, key, v)), split(h, c, h.len(c), cuts), last, 'the decrypter')
    if back is not None:
        same(h, back, h.cells(data), 'the data comes back, whatever the pieces')


def foreign(h, name, total, cuts):
    """a ciphertext nobody made: refused, or decrypted to what the mode says, less a correct padding"""
    from nbc.util import pyaes
    E, D, key, v = setup(h)
    c = h.bytes('c', total)
    f = h.run(pyaes.Decrypter, mode(h, name, key, v))
    out, st = b'', 'ok'
    for p in split(h, c, total, cuts):
        st, r = h.call(f.feed, p)
        if st != 'ok':
            break
        out = h.concat(out, r)
    if st == 'ok':
        st, r = h.call(f.feed)
        out = h.concat(out, r) if st == 'ok' else out
    if total == 0 or total % 16:
        h.check(st == 'raise' and isinstance(r, ValueError), 'not whole blocks: refused')
        return
    cells = list(h.cells(c))
    want = (lambda: A.ecb(h, D, key, cells) if name == 'ecb' else A.cbc_dec(h, D, key, list(h.cells(v)), cells))()
    if st == 'raise':
        h.check(isinstance(r, ValueError), 'refused with a value error')
        for k in range(1, 17):
            h.check(h.not_(h.all(*[x == k for x in want[-k:]])), 'correct padding is accepted')
    else:
        m = h.len(out)
        h.check(1 <= total - m <= 16, 'between one and sixteen bytes stripped')
        h.check(h.all(*[x == total - m for x in want[m:]]), 'only correct padding')
        same(h, out, want[:m], 'the rest is the data')


def instances(tier):
    deep = tier == 'thorough'
    out = []
    o = dict(opaque_xor=True, alts=3, witnesses=2)
    for n in range(0, 41):
        out.append(Inst('pad[%d]' % n, pad, dict(n=n), opaque_xor=True, witnesses=1))
    for n in range(0, 50):
        if deep or n % 16 == 0 or n in (1, 15, 17, 31, 33, 49):
            out.append(Inst('strip[%d]' % n, strip, dict(n=n), witnesses=4))
    modes = ['ecb', 'cbc', 'ofb', 'ctr', 'cfb1', 'cfb5', 'cfb8', 'cfb16'] + (['cfb%d' % i for i in range(2, 16) if i not in (5, 8)] if deep else [])
    for m in modes:
        for i, L in enumerate(range(51) if deep else (0, 1, 7, 15, 16, 17, 20, 31, 32, 33, 40, 49)):
            last = 'none' if i % 2 else 'empty'
            for what, f in (('enc', encrypt), ('dec', decrypt)):
                cs = [1] if L > 1 or f is decrypt else [0]
                if L in (7, 20) and (deep or L == 7):
                    cs.append(2)
                if L in (20, 33):
                    cs.append('bytes')
                for c in cs:
                    out.append(Inst('%s[%s,%d,%s]' % (what, m, L, c), f, dict(name=m, total=L, cuts=c, last=last), cost=L, **o))
    for m in ('ecb', 'cbc'):
        for L in range(0, 50):
            if deep or L in (0, 1, 15, 16, 17, 31, 32, 33, 48, 49):
                out.append(Inst('foreign[%s,%d]' % (m, L), foreign, dict(name=m, total=L, cuts=0 if L in (16, 32, 48) and not deep else 1), cost=L,
                                **dict(o, opaque_xor=False)))
    return out
