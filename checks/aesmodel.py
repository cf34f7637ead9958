"""The AES block function as an arbitrary keyed bijection, for the code built on top of it (P23 decides
the real one).  Replays use the real cipher; the reference below is then FIPS-197 written out."""
import aesref


def install(h, prove=False):
    """replace nbc.util.pyaes.aes.AES in symbolic runs; returns (E, D) on lists of bytes for the oracle; prove: blocks are
    compared by the solver (counters), not by structure alone"""
    if not h.symbolic:
        def E(key, block):
            return aesref_run(h, aesref.encrypt, key, block)

        def D(key, block):
            return aesref_run(h, aesref.decrypt, key, block)
        return E, D
    from nbc.util.pyaes import aes
    pairs = []

    def blk(x):
        return h.from_cells('b', list(x) if isinstance(x, (list, tuple)) else h.cells(x))

    def same(a, b):
        a, b = h.cells(a), h.cells(b)
        if len(a) != len(b):
            return False
        diff = [(x, y) for x, y in zip(a, b) if not h.same_known(x, y)]
        if not diff:
            return True
        return prove and h.surely(h.all(*[h.eq(x, y) for x, y in diff]))

    tab = {}

    def ident(k, x):
        return k + tuple(h.ident(c) for c in h.cells(x))

    def E(key, p):
        key, p = blk(key), blk(p)
        k = ident(('E',), key)
        c = tab.get(ident(k, p))
        if c is None and prove:
            c = next((c2 for k2, p2, c2 in pairs if same(k2, key) and same(p2, p)), None)
        if c is None:
            c = h.uf('aesE%d' % len(pairs), 16)      # a new name: equal blocks are found above, or not at all
            pairs.append((key, p, c))
        tab[ident(k, p)] = c
        tab[ident(('D',) + k[1:], c)] = p
        return list(h.cells(c))

    def D(key, c):
        key, c = blk(key), blk(c)
        k = ident(('D',), key)
        p = tab.get(ident(k, c))
        if p is None and prove:
            p = next((p2 for k2, p2, c2 in pairs if same(k2, key) and same(c2, c)), None)
        if p is None:
            p = h.uf('aesD%d' % len(pairs), 16)
            pairs.append((key, p, c))
        tab[ident(k, c)] = p
        tab[ident(('E',) + k[1:], p)] = c
        return list(h.cells(p))

    def init(self, key):
        if len(key) not in (16, 24, 32):
            raise ValueError('Invalid key size')
        self._sx_key = blk(key)

    def enc(self, p):
        if len(p) != 16:
            raise ValueError('wrong block length')
        return E(self._sx_key, p)

    def dec(self, c):
        if len(c) != 16:
            raise ValueError('wrong block length')
        return D(self._sx_key, c)
    for n, f in (('__init__', init), ('encrypt', enc), ('decrypt', dec)):
        h.only_symbolic_stub(aes.AES, n, f)
    return E, D


def aesref_run(h, f, key, block):
    aesref.use(h)
    return f(h.cells(key), list(block))


# ------------------------------------------------------------- SP 800-38A
def xor(h, a, b):
    return [h.run(lambda: x ^ y) for x, y in zip(a, b)]


def ecb(h, E, key, data):
    out = []
    for i in range(0, len(data), 16):
        out += E(key, data[i:i + 16])
    return out


def cbc_enc(h, E, key, iv, data):
    out, last = [], list(iv)
    for i in range(0, len(data), 16):
        last = E(key, xor(h, data[i:i + 16], last))
        out += last
    return out


def cbc_dec(h, D, key, iv, data):
    out, last = [], list(iv)
    for i in range(0, len(data), 16):
        out += xor(h, D(key, data[i:i + 16]), last)
        last = data[i:i + 16]
    return out


def cfb(h, E, key, iv, data, seg, decrypting):
    """the last segment may be short"""
    out, reg = [], list(iv)
    for i in range(0, len(data), seg):
        s = data[i:i + seg]
        o = xor(h, s, E(key, reg))
        out += o
        c = s if decrypting else o
        reg = reg[len(c):] + c
    return out


def ofb(h, E, key, iv, data):
    out, last = [], list(iv)
    for i in range(0, len(data), 16):
        last = E(key, last)
        out += xor(h, data[i:i + 16], last)
    return out


def ctr(h, E, key, start, data):
    out = []
    for n, i in enumerate(range(0, len(data), 16)):
        v = h.run(lambda: (start + n) % 2 ** 128)
        out += xor(h, data[i:i + 16], E(key, h.cells(h.to_be(v, 16))))
    return out
