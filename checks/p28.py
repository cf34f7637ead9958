"""Target, version and hex helpers are exact."""
from symx.inst import Inst

BOUNDS = ('compact difficulties with every exponent 0-32 (and 33, 34 where the value fits 256 bits) and every 23-bit mantissa, sign bit included; every '
          '32-byte hash; all version numbers from -10^12 to 10^12; hex strings of 0-8, 20, 32, 33 bytes; hex texts of 0-4 arbitrary characters')
OUTSIDE = 'compact values whose target exceeds 256 bits; the floating-point difficulty (get_difficulty) and text formatting helpers'
ASSUMPTIONS = ['the coin\'s proof-of-work function is an arbitrary function of the 80 header bytes giving 32 bytes']


def ref_target(h, e, m):
    return m * 256 ** (e - 3) if e >= 3 else h.run(lambda: m // 256 ** (3 - e))


def target(h, e):
    from nbc import util
    low = h.int('low', 0, 2 ** 24 - 1)
    m = h.run(lambda: low % 2 ** 23)
    want = ref_target(h, e, m)
    h.assume(want < 2 ** 256)
    st, t = h.call(util.get_target, e * 2 ** 24 + low)
    h.check(st == 'ok', 'a target that fits 256 bits is computed')
    if st == 'ok':
        h.check(h.len(t) == 32, '32 bytes')
        h.check(h.be(t) == want, 'mantissa scaled by 256^(exponent-3)')


def verify(h, e):
    from nbc import util
    from nbc.protocol import format as F
    low = h.int('low', 0, 2 ** 24 - 1)
    m = h.run(lambda: low % 2 ** 23)
    want = ref_target(h, e, m)
    h.assume(want < 2 ** 256)
    f = dict(version=h.int('version', 0, 2 ** 32 - 1), prev_block=h.bytes('prev', 32), merkle_root=h.bytes('root', 32), timestamp=h.int('time', 0, 2 ** 32 - 1),
             bits=e * 2 ** 24 + low, nonce=h.int('nonce', 0, 2 ** 32 - 1), txn_count=h.int('count', 0, 252))
    hd = h.run(F.BlockHeader, **f)
    seen = []
    digest = h.bytes('digest', 32)

    class Coin(object):
        @staticmethod
        def proof_of_work(b):
            seen.append(b)
            return digest
    st, r = h.call(util.verify_target, Coin, hd)
    h.check(st == 'ok', 'verification does not fail')
    if st != 'ok':
        return
    ref = h.concat(h.to_le(f['version'], 4), f['prev_block'], f['merkle_root'], h.to_le(f['timestamp'], 4), h.to_le(f['bits'], 4), h.to_le(f['nonce'], 4))
    h.check(len(seen) >= 1 and h.all(*[h.eq(s, ref) for s in seen]), 'the 80 header bytes are hashed')
    ok = h.le(digest) <= want
    if r:
        h.check(ok, 'accepted only when the hash does not exceed the target')
    else:
        h.check(h.not_(ok), 'refused only when the hash exceeds the target')


def version_roundtrip(h):
    from nbc import util
    v = h.int('v', -10 ** 12, 10 ** 12)
    parts = h.run(util.get_version, v)
    h.check(len(parts) == 4, 'four parts')
    a, b, c, d = parts
    h.check(h.all(b >= 0, b < 100, c >= 0, c < 100, d >= 0, d < 100), 'minor parts below 100')
    st, w = h.call(util.make_version, a, b, c, d)
    h.check(st == 'ok' and w == v, 'make_version(get_version(v)) == v')


def version_parts(h):
    from nbc import util
    M = h.int('major', -10 ** 6, 10 ** 6)
    a, b, c = [h.int(x, -1000, 1000) for x in ('minor', 'revision', 'build')]
    st, v = h.call(util.make_version, M, a, b, c)
    ok = h.all(*[h.all(x >= 0, x < 100) for x in (a, b, c)])
    if st == 'raise':
        h.check(isinstance(v, ValueError), 'out of range is a ValueError')
        h.check(h.not_(ok), 'only parts out of range are refused')
        return
    h.check(ok, 'parts out of range are refused')
    h.check(v == M * 1000000 + a * 10000 + b * 100 + c, 'packed decimally')
    r = h.run(util.get_version, v)
    h.check(h.all(r[0] == M, r[1] == a, r[2] == b, r[3] == c), 'get_version(make_version(..)) gives the parts')


HEX = b'0123456789abcdef'


def hexes(h, n):
    from nbc import util
    b = h.bytes('data', n)
    t = h.run(util.bin_to_hex, b)
    h.check(isinstance(t, str) and h.len(t) == 2 * n, 'two text digits per byte')
    cs, bs = h.cells(t), h.cells(b)
    for i in range(n):
        x = bs[n - 1 - i]
        hi, lo = h.run(lambda: x // 16), h.run(lambda: x % 16)
        h.check(h.all(cs[2 * i] == h.ite(hi < 10, hi + 48, hi + 87), cs[2 * i + 1] == h.ite(lo < 10, lo + 48, lo + 87)), 'lower-case digits of the bytes in reverse')
    h.check(h.eq(h.run(util.hex_to_bin, t), b), 'hex_to_bin(bin_to_hex(b)) == b')


def hex_text(h, n):
    from nbc import util
    t = h.str('t', n)
    cs = h.cells(t)
    st, b = h.call(util.hex_to_bin, t)
    good = n % 2 == 0 and h.all(True, *[h.any(h.all(c >= 48, c <= 57), h.all(c >= 97, c <= 102), h.all(c >= 65, c <= 70)) for c in cs])
    if st == 'raise':
        h.check(isinstance(b, ValueError), 'bad hex is a ValueError')
        h.check(h.not_(good), 'only bad hex is refused')
        return
    h.check(good, 'bad hex is refused')
    back = h.cells(h.run(util.bin_to_hex, b))
    low = [h.ite(h.all(c >= 65, c <= 70), c + 32, c) for c in cs]
    h.check(h.all(len(back) == n, *[x == y for x, y in zip(back, low)]), 'bin_to_hex(hex_to_bin(t)) == t')


def instances(tier):
    out = []
    for e in range(0, 35):
        out.append(Inst('target[%d]' % e, target, dict(e=e)))
    for e in range(0, 35):
        out.append(Inst('verify[%d]' % e, verify, dict(e=e)))
    out += [Inst('version_roundtrip', version_roundtrip, {}), Inst('version_parts', version_parts, {})]
    for n in list(range(0, 9)) + [20, 32, 33]:
        out.append(Inst('hexes[%d]' % n, hexes, dict(n=n)))
    for n in range(0, 5):
        out.append(Inst('hex_text[%d]' % n, hex_text, dict(n=n)))
    return out
