"""Exclusive-or as linear algebra over GF(2).

A byte built with exclusive-ors is kept as eight sums of bits of atoms (input bytes, cipher outputs,
table outputs), so equal combinations are the same term whatever the order they were built in.  A
256-entry table that is affine over the bits of its index, of the AES S-box of its index or of the
inverse S-box of its index, is such a combination too; every other table is an atom per index."""
import z3
from . import values as V

CACHE = {}


def _gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = (a << 1) ^ (0x11b if a & 128 else 0)
        b >>= 1
    return r


def _sbox():
    s = []
    for x in range(256):
        inv = next((y for y in range(256) if _gmul(x, y) == 1), 0)
        r = 0x63
        for k in range(5):
            r ^= ((inv << k) | (inv >> (8 - k))) & 255
        s.append(r)
    return s


S = _sbox()
SI = [0] * 256
for _i, _v in enumerate(S):
    SI[_v] = _i


def _state():
    p = V._cur()
    st = p.memo.get('gf2')
    if st is None:
        st = p.memo['gf2'] = dict(base={}, atoms=[], byte={}, form={}, look={}, made={})
    return st


def form(c):
    """eight masks (least significant bit first); mask bit 0 is the constant one"""
    if type(c) is not V.SymInt:
        return tuple((int(c) >> i) & 1 for i in range(8))
    st = _state()
    i = c.expr.get_id()
    f = st['form'].get(i)
    if f is not None:
        return f[0]
    c = V.canon(c)
    if type(c) is not V.SymInt:
        return form(c)
    j = c.expr.get_id()
    f = st['form'].get(j)
    if f is not None:
        return f[0]
    k = len(st['atoms'])
    st['atoms'].append(c)
    hi = 255 if c.hi is None else c.hi
    n = hi.bit_length()
    f = tuple((1 << (1 + 8 * k + b)) if b < n else 0 for b in range(8))
    st['form'][j] = (f, c)
    st['form'][i] = (f, c)
    st['byte'][f] = c
    return f


def is_form(c):
    return type(c) is V.SymInt and c.prov is not None and c.prov[0] == 'gf2'


def byte(f):
    """the byte with this form"""
    f = tuple(f)
    if all(m in (0, 1) for m in f):
        return sum(m << i for i, m in enumerate(f))
    st = _state()
    r = st['byte'].get(f)
    if r is not None:
        return r
    p = V._cur()
    z = z3.Int(p.fresh('x'))
    hi = max(i for i in range(8) if f[i])
    top = (1 << (hi + 1)) - 1
    r = V.SymInt(z, 0, top, prov=('gf2', f))
    p.defsym(z, z >= 0, z <= top)
    if not p.opts.get('opaque_xor'):
        def definition():
            bits = []
            for b in range(hi + 1):
                m, k, xs = f[b] >> 1, 0, []
                while m:
                    if m & 1:
                        xs.append(V._bits(st['atoms'][k // 8], 8)[k % 8])
                    m >>= 1
                    k += 1
                e = z3.BoolVal(bool(f[b] & 1))
                for x in xs:
                    e = z3.Xor(e, x)
                bits.append(z3.If(e, z3.IntVal(1 << b), z3.IntVal(0)))
            return z == z3.Sum(bits)
        p.defsym(z, definition)
    st['byte'][f] = r
    st['form'][z.get_id()] = (f, r)
    return r


def xor(a, b):
    return byte([x ^ y for x, y in zip(form(a), form(b))])


def signed_cells(x, limit=64):
    """big-endian two's complement bytes (the first one carries the sign), or None"""
    if type(x) is not V.SymInt:
        if not isinstance(x, int):
            return None
        x = int(x)
        n = (x if x >= 0 else ~x).bit_length() // 8 + 1
        return list(x.to_bytes(n, 'big', signed=True))
    if x.prov is not None and x.prov[0] == 'tw':
        return list(x.prov[1])
    if x.cells is not None:
        return [0] + list(x.cells) if len(x.cells) <= limit else None
    if x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi <= 255:
        return [0, x]
    return None


def sign(cells):
    return form(cells[0])[7]


def extend(cells, n):
    if len(cells) >= n:
        return cells
    s = sign(cells)
    return [byte([s] * 8)] * (n - len(cells)) + cells


def from_signed(cells):
    """the integer with these two's complement bytes"""
    cells = list(cells)
    while len(cells) > 1:
        f = form(cells[0])
        if any(x != f[7] for x in f) or form(cells[1])[7] != f[7]:
            break
        cells = cells[1:]
    s = sign(cells)
    if s == 0:
        return V.cells_int(cells)
    if all(type(c) is not V.SymInt for c in cells):
        return int.from_bytes(bytes(cells), 'big', signed=True)
    st = _state()
    key = ('tw',) + tuple(form(c) for c in cells)
    r = st['look'].get(key)
    if r is not None:
        return r
    p = V._cur()
    z = z3.Int(p.fresh('w'))
    half = 256 ** len(cells) // 2
    u = V.cells_int(cells)
    p.defsym(z, z >= -half, z < half)
    if not p.opts.get('opaque_xor'):
        p.defsym(z, lambda: z == z3.If(u.expr >= half, u.expr - 2 * half, u.expr))
    r = st['look'][key] = V.SymInt(z, -half, half - 1, prov=('tw', tuple(cells)))
    return r


def xor_ints(a, b):
    ca, cb = signed_cells(a), signed_cells(b)
    if ca is None or cb is None:
        return None
    n = max(len(ca), len(cb))
    ca, cb = extend(ca, n), extend(cb, n)
    return from_signed([x ^ y if type(x) is int and type(y) is int else xor(x, y) for x, y in zip(ca, cb)])


def is_tw(x):
    return type(x) is V.SymInt and x.prov is not None and x.prov[0] == 'tw'


def tw_and(a, m):
    """two's complement & constant"""
    c, k = signed_cells(a), signed_cells(m)
    n = max(len(c), len(k))
    return from_signed([0 if y == 0 else x if y == 255 or type(x) is int and x & y == x else
                        (x & y if type(x) is int else and_const(x, y)) for x, y in zip(extend(c, n), extend(k, n))])


def tw_shift(a, k):
    """arithmetic shift, left when k > 0; only whole bytes, else None"""
    if k % 8:
        return None
    c = signed_cells(a)
    if k >= 0:
        return from_signed(c + [0] * (k // 8))
    return from_signed(extend(c, -k // 8 + 1)[:k // 8])


def and_const(a, m):
    f = form(a)
    return byte([x if (m >> i) & 1 else 0 for i, x in enumerate(f)])


def shift_right(a, k):
    f = form(a)
    return byte(list(f[k:]) + [0] * min(k, 8))


def shift_left(a, k):
    f = [0] * k + list(form(a))
    n = (len(f) + 7) // 8
    f += [0] * (8 * n - len(f))
    return V.cells_int([byte(f[8 * i:8 * i + 8]) for i in range(n)][::-1])


# ------------------------------------------------------------- tables
def _affine(t):
    """(columns, constant) when t is affine over the bits of its index"""
    c = t[0]
    cols = [t[1 << i] ^ c for i in range(8)]
    for x in range(256):
        v = c
        for i in range(8):
            if (x >> i) & 1:
                v ^= cols[i]
        if v != t[x]:
            return None
    return cols, c


def classify(t):
    k = CACHE.get(t)
    if k is None:
        for name, base in (('id', None), ('S', SI), ('Si', S)):
            m = _affine(t if base is None else [t[base[y]] for y in range(256)])
            if m is not None:
                k = (name, m)
                break
        else:
            k = ('raw', None)
        CACHE[t] = k
    return k


def _apply(m, f, width):
    cols, c = m
    out = []
    for j in range(width):
        v = (c >> j) & 1
        for i in range(8):
            if (cols[i] >> j) & 1:
                v ^= f[i]
        out.append(v)
    out += [0] * (-len(out) % 8)
    return V.cells_int([byte(out[8 * i:8 * i + 8]) for i in range(len(out) // 8)][::-1])


def _atom(kind, f, exact=None):
    st = _state()
    key = (kind, f)
    r = st['look'].get(key)
    if r is None:
        p = V._cur()
        z = z3.Int(p.fresh('sb'))
        p.defsym(z, z >= 0, z <= 255)
        r = st['look'][key] = V.SymInt(z, 0, 255)
        st['made'][form(r)] = key
    return r


def lookup(tab, idx):
    """tab[idx] for a 256-entry table of naturals, or None"""
    if len(tab) != 256 or any(type(x) is not int or x < 0 for x in tab):
        return None
    if idx.hi is None or idx.hi > 255:
        return None
    t = tuple(tab)
    kind, m = classify(t)
    f = form(idx)
    width = max(1, max(t).bit_length())
    if kind == 'raw':
        if width <= 8:
            return _atom(('raw', t), f)
        return V.cells_int([_atom(('raw', t, i), f) for i in range((width + 7) // 8)])
    if kind != 'id':
        made = _state()['made'].get(f)
        if made is not None and made[0] == ('Si' if kind == 'S' else 'S'):
            f = made[1]
        else:
            f = form(_atom(kind, f))
    return _apply(m, f, width)
