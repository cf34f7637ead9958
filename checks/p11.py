"""WIF private keys round-trip and bad ones are refused."""
from symx.inst import Inst

BOUNDS = ('export and import of every 32-byte key, plain and compressed; import of every text whose decoded form has 0-8, 32-39 or 42 bytes '
          '(all byte values, SHA-256 uninterpreted); texts with the right checksum; arbitrary texts of up to 2 (quick) / 4 (thorough) characters')
OUTSIDE = 'other decoded lengths; prefixes other than the standard 0x80 (the first-letter test of the format fixes it)'
ASSUMPTIONS = ['hash functions are deterministic functions of their input bytes']


def dsha(h, d):
    return h.sha('sha256', h.sha('sha256', d))


def export(h, compressed):
    from nbc.util import key, base58
    k = h.bytes('key', 32)
    payload = h.concat(k, b'\1') if compressed else k
    text = h.run(key.privkey_to_wif, payload)
    st, r = h.call(key.privkey_from_wif, text)
    h.check(st == 'ok', 'an exported key imports')
    h.check(h.eq(r, k), 'the same 32 bytes come back')
    full = h.concat(b'\x80', payload)
    h.check(h.eq(base58.b58decode(text), h.concat(full, dsha(h, full)[:4])), 'the text is prefix, key, flag and checksum in base58')
    c0 = h.cells(text)[0]
    if compressed:
        h.check(h.any(c0 == 75, c0 == 76), 'compressed keys begin with K or L')
    else:
        h.check(c0 == 53, 'plain keys begin with 5')


def verdict(h, n, as_text=False, summed=False):
    """any text, given by its decoded bytes; summed: those with the right checksum"""
    from nbc.util import key, base58
    if summed:
        body = h.bytes('body', n - 4)
        raw = h.concat(body, dsha(h, body)[:4])
    else:
        raw = h.bytes('raw', n)
    text = h.run(base58.b58encode, raw)
    if as_text:
        text = h.from_cells('s', h.cells(text))
    st, r = h.call(key.privkey_from_wif, text)
    cs = h.cells(raw)
    body, check = (raw[:-4], raw[-4:]) if n >= 4 else (raw[:0], raw)
    if n == 37:
        form = cs[0] == 0x80
    elif n == 38:
        form = h.all(cs[0] == 0x80, cs[33] == 1)
    else:
        form = False
    good = h.all(form, h.eq(check, dsha(h, body)[:4])) if n >= 37 else False
    if st == 'raise':
        h.check(isinstance(r, ValueError), 'refused with a value error, not %s' % type(r).__name__)
        h.check(h.not_(good), 'a valid text imports')
    else:
        h.check(good, 'refused when checksum, prefix, length or flag is wrong')
        h.check(h.eq(r, raw[1:33]), 'the 32 bytes of the text')


def any_text(h, n, kind):
    from nbc.util import key
    t = h.bytes('text', n) if kind == 'b' else h.str('text', n, 0, 255)
    st, r = h.call(key.privkey_from_wif, t)
    h.check(st == 'raise' and isinstance(r, ValueError), 'refused with a value error')


def instances(tier):
    out = [Inst('export[%s]' % c, export, dict(compressed=c), cost=60) for c in (False, True)]
    T = tier == 'thorough'
    for n in sorted(set(list(range(0, 9)) + [32, 33, 34, 35, 36, 37, 38, 39, 42] + (list(range(9, 50)) + [82] if T else []))):
        out.append(Inst('verdict[%d]' % n, verdict, dict(n=n), cost=n))
    for n in (37, 38):
        out.append(Inst('verdict_str[%d]' % n, verdict, dict(n=n, as_text=True), cost=n))
    for n in list(range(4, 9)) + [34, 35, 36, 37, 38, 39, 40, 42] + ([41] + list(range(43, 50)) if T else []):
        out.append(Inst('summed[%d]' % n, verdict, dict(n=n, summed=True), cost=n))
    for n in range(0, 5 if T else 3):
        for kind in 'bs':
            out.append(Inst('any_text[%d,%s]' % (n, kind), any_text, dict(n=n, kind=kind)))
    return out
