"""Reference description of the wire format, written from the Bitcoin protocol
documentation (not from the code), with a generator and a serialiser."""

ADDRS = [('10.0.7.255', bytes(10) + b'\xff\xff\x0a\x00\x07\xff'), ('2001:db8:0:0:0:0:0:1', bytes.fromhex('20010db8000000000000000000000001')),
         ('0.0.0.0', bytes(10) + b'\xff\xff' + bytes(4)), ('fe80:1:22:333:4444:a:bc:def', bytes.fromhex('fe80000100220333' + '4444000a00bc0def'))]

RANGES = dict(b=(-2**7, 2**7), B=(0, 2**8), h=(-2**15, 2**15), H=(0, 2**16), i=(-2**31, 2**31), I=(0, 2**32), q=(-2**63, 2**63), Q=(0, 2**64))
WIDTH = dict(b=1, h=2, i=4, q=8)

NETADDR = [('timestamp', 'I'), ('services', 'Q'), ('address', 'ip'), ('port', '>H')]
INV = [('object_type', 'I'), ('hash', 32)]
OUTPOINT = [('hash', 32), ('index', 'I')]
TXIN = [('previous_output', ('c', 'OutPoint', OUTPOINT)), ('signature_script', 'str'), ('sequence', 'I')]
TXOUT = [('value', 'q'), ('pk_script', 'str')]
TXN = [('version', 'I'), ('tx_in', ('a', ('c', 'TxnIn', TXIN), 1, None)), ('tx_out', ('a', ('c', 'TxnOut', TXOUT), 1, None)), ('lock_time', 'I')]
HEADER80 = [('version', 'I'), ('prev_block', 32), ('merkle_root', 32), ('timestamp', 'I'), ('bits', 'I'), ('nonce', 'I')]
HEADER = HEADER80 + [('txn_count', 'v')]

COMPOUND = dict(NetworkAddress=NETADDR, InventoryVector=INV, OutPoint=OUTPOINT, TxnIn=TXIN, TxnOut=TXOUT, Txn=TXN, BlockHeader=HEADER)
LOCATOR = [('version', 'I'), ('block_locator_hashes', ('a', 32, 1, None)), ('hash_stop', 32)]
INVLIST = [('inventory', ('a', ('c', 'InventoryVector', INV), 0, 50000))]
# command -> (class name, fields)
MESSAGES = {
    'version': ('Version', [('version', 'i'), ('services', 'Q'), ('timestamp', 'q'), ('addr_recv', 'na'), ('addr_from', 'na'), ('nonce', 8),
                            ('user_agent', 'str'), ('start_height', 'i'), ('relay', ('o', 'B', True))]),
    'verack': ('VersionAck', []),
    'addr': ('Address', [('addr_list', ('a', ('c', 'NetworkAddress', NETADDR), 0, 1000))]),
    'inv': ('Inventory', INVLIST), 'getdata': ('GetData', INVLIST), 'notfound': ('NotFound', INVLIST),
    'getblocks': ('GetBlocks', LOCATOR), 'getheaders': ('GetHeaders', LOCATOR),
    'tx': ('Transaction', TXN),
    'block': ('Block', HEADER80 + [('txns', ('a', ('c', 'Txn', TXN), 0, None))]),
    'headers': ('Headers', [('headers', ('a', ('c', 'BlockHeader', HEADER), 0, None))]),
    'getaddr': ('GetAddress', []), 'mempool': ('MemoryPool', []),
    'ping': ('Ping', [('nonce', 8)]), 'pong': ('Pong', [('nonce', 8)]),
    'reject': ('Reject', [('message', 'str'), ('ccode', 'B'), ('reason', 'str')]),
    'alert': ('Alert', [('payload', 'str'), ('signature', 'str')]),
}
# classes that exist but are not part of the registered set
UNREGISTERED = {
    'filterload': ('FilterLoad', [('filter', ('a', 'B', 0, None)), ('n_hashes_func', 'I'), ('n_tweak', 'I'), ('n_flags', 'B')]),
    'filteradd': ('FilterAdd', [('data', 'str')]), 'filterclear': ('FilterClear', []),
    'merkleblock': ('MerkleBlock', HEADER80 + [('total_transactions', 'I'), ('hashes', ('a', 32, 0, None)), ('flags', ('a', 'b', 0, None))]),
}


def classes():
    from nbc.protocol import format as F, messages as M
    d = {n: getattr(F, n) for n in COMPOUND}
    d.update({n: getattr(M, n) for n, _ in list(MESSAGES.values()) + list(UNREGISTERED.values())})
    return d


def varint(h, n):
    """concrete count"""
    if n < 0xfd:
        return bytes([n])
    if n <= 0xffff:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def sym_varint(h, v):
    """shortest encoding of a symbolic number: a list of (condition, bytes)"""
    return [(h.all(v >= 0, v < 0xfd), lambda: h.to_le(v, 1)), (h.all(v >= 0xfd, v <= 0xffff), lambda: h.concat(b'\xfd', h.to_le(v, 2))),
            (h.all(v > 0xffff, v <= 0xffffffff), lambda: h.concat(b'\xfe', h.to_le(v, 4))), (v > 0xffffffff, lambda: h.concat(b'\xff', h.to_le(v, 8)))]


class Gen(object):
    """symbolic field values; sizes of arrays and strings come from `count` and `slen` (functions of the field path)"""

    def __init__(self, h, count, slen, addr=0, vbits=64):
        self.h, self.count, self.slen, self.addr = h, count, slen, addr
        self.cls = classes()

    def value(self, kind, path):
        """-> (value for the constructor, reference bytes)"""
        h = self.h
        if isinstance(kind, int):
            b = h.bytes(path, kind)
            return b, b
        if kind == 'str':
            n = self.slen(path)
            if isinstance(n, tuple) and n[0] == 't':
                t = h.str(path, n[1], 0, 255)
                return t, h.concat(varint(h, n[1]), h.from_cells('b', h.cells(t)))
            if isinstance(n, tuple):
                b = h.blob(path, n[0], n[1])
                return b, ('lenblob', b)
            b = h.bytes(path, n)
            return b, h.concat(varint(h, n), b)
        if kind == 'ip':
            t, b = ADDRS[(self.addr + len(path)) % len(ADDRS)]
            return t, b
        if kind == 'v':
            v = h.int(path, 0, 2 ** 64 - 1)
            # fork on the four forms
            for cond, enc in sym_varint(h, v):
                if cond:
                    return v, enc()
            raise AssertionError
        if isinstance(kind, str):
            big = kind[0] == '>'
            f = kind[-1]
            if f in RANGES:
                lo, hi = RANGES[f]
                v = h.int(path, lo, hi - 1)
                w = WIDTH[f.lower()]
                u = h.twos(v, w) if lo < 0 else v
                return v, (h.to_be(u, w) if big else h.to_le(u, w))
            if kind == 'na':
                o, b = self.value(('c', 'NetworkAddress', NETADDR), path)
                return o, b[4:]
        if kind[0] == 'c':
            vals, b = self.fields(kind[2], path + '.')
            return self.h.run(self.cls[kind[1]], **vals), b
        if kind[0] == 'a':
            n = self.count(path)
            vs, b = [], varint(h, n)
            for i in range(n):
                v, e = self.value(kind[1], '%s[%d]' % (path, i))
                vs.append(v)
                b = h.concat(b, e)
            return vs, b
        if kind[0] == 'o':
            return self.value(kind[1], path)
        raise AssertionError(kind)

    def fields(self, spec, prefix=''):
        h = self.h
        vals, out = {}, b''
        for name, kind in spec:
            v, e = self.value(kind, prefix + name)
            if isinstance(e, tuple):
                b = e[1]
                n = h.len(b)
                for cond, enc in sym_varint(h, n):
                    if cond:
                        e = h.concat(enc(), b)
                        break
            vals[name] = v
            out = h.concat(out, e)
        return vals, out


def same(h, got, want, kind):
    """field equality of a parsed value with the value given to the constructor (text comes back as its bytes)"""
    if kind == 'str' and (type(want) is str or getattr(want, 'kind', '') == 's'):
        want = h.from_cells('b', h.cells(want))
    if isinstance(kind, int) or kind == 'str':
        return h.eq(got, want)
    if isinstance(kind, str):
        if kind == 'ip':
            return h.eq(got, want)
        if kind == 'na':
            return h.all(got.services == want.services, h.eq(got.address, want.address), got.port == want.port)
        return got == want
    if kind[0] == 'c':
        return h.all(type(got).__name__ == kind[1], *[same(h, getattr(got, n), getattr(want, n), k) for n, k in kind[2]])
    if kind[0] == 'a':
        if len(got) != len(want):
            return False
        return h.all(True, *[same(h, g, w, kind[1]) for g, w in zip(got, want)])
    if kind[0] == 'o':
        return same(h, got, want, kind[1])
    raise AssertionError(kind)


def in_limits(h, v, kind):
    """a parsed value lies within the declared type and limits"""
    if isinstance(kind, int):
        return h.all(isinstance(v, bytes) or h.is_sym(v), h.len(v) == kind)
    if kind == 'str' or kind == 'ip':
        return True
    if isinstance(kind, str):
        if kind == 'na':
            return in_limits(h, v, ('c', 'NetworkAddress', NETADDR))
        lo, hi = RANGES[kind[-1]] if kind != 'v' else (0, 2 ** 64)
        return h.all(v >= lo, v < hi)
    if kind[0] == 'c':
        return h.all(type(v).__name__ == kind[1], *[in_limits(h, getattr(v, n), k) for n, k in kind[2]])
    if kind[0] == 'a':
        n = len(v)
        if (kind[2] and n < kind[2]) or (kind[3] and n > kind[3]):
            return False
        return h.all(True, *[in_limits(h, x, kind[1]) for x in v])
    if kind[0] == 'o':
        return h.any(v is kind[2], in_limits(h, v, kind[1]))
    raise AssertionError(kind)
