"""Arbitrary payload bytes never crash or over-read the message parsers."""
from symx.inst import Inst
import wire

BOUNDS = ('every registered message type with payloads of arbitrary bytes: all lengths 0-12, lengths around one and two items of its arrays, and valid '
          'messages cut short at every byte; alert contents of 0-45 bytes (thorough 48)')
OUTSIDE = 'longer payloads; the 16 address bytes inside complete network addresses are fixed samples here (P05 decides them)'


def parse_of(cls):
    from nbc.protocol import format as F
    return F.CompoundType.parse.__func__, cls


def count_items(v, kind):
    if isinstance(kind, tuple) and kind[0] == 'c':
        return 1 + sum(count_items(getattr(v, n), k) for n, k in kind[2])
    if isinstance(kind, tuple) and kind[0] == 'a':
        return 1 + sum(count_items(x, kind[1]) for x in v)
    return 1


def judge(h, cls, spec, d, n):
    from nbc.protocol import format as F
    f, c = parse_of(cls)
    st, r = h.call(f, c, d)
    if st == 'raise':
        h.check(isinstance(r, F.ParameterError), 'only the parameter error: %s' % type(r).__name__)
        return None
    used, m = r
    optional = bool(spec) and isinstance(spec[-1][1], tuple) and spec[-1][1][0] == 'o'
    h.check(h.all(used >= 0, used <= n), 'does not read beyond the payload')
    items = sum(count_items(getattr(m, a), k) for a, k in spec)
    h.check(items <= n + len(spec) + 2, 'items bounded by the payload length')
    for a, k in spec:
        h.check(wire.in_limits(h, getattr(m, a), k), 'field within its declared type and limits: %s' % a)
    # what was read is what is written back; only a longer-than-needed length form may shrink
    st, b = h.call(F.CompoundType.binary, m)
    h.check(st == 'ok', 'a parsed message serialises')
    if st == 'ok':
        lb = h.len(b)
        if optional:
            h.check(h.any(lb <= used, lb <= used + 1), 'serialised form not longer than what was read')
        else:
            h.check(lb <= used, 'serialised form not longer than what was read')
        if lb == used:
            h.check(h.eq(b, d[:used]), 'fields are the bytes that were read')
        st2, r2 = h.call(f, c, b)
        h.check(st2 == 'ok', 'the serialised form parses')
        if st2 == 'ok':
            for a, k in spec:
                h.check(wire.same(h, getattr(r2[1], a), getattr(m, a), k), 'same fields after re-parsing: %s' % a)
    return m


IP4, IP6 = wire.ADDRS[0][1], wire.ADDRS[1][1]
# offsets of the 16 address bytes (fixed here: P05 decides address bytes)
FIXED = {'version': [(28, IP4), (54, IP6)], 'addr': [(13, IP6), (43, IP4)], 'NetworkAddress': [(12, IP4)]}


def arbitrary(h, key, n):
    parts, pos = [b''], 0
    for off, ip in FIXED.get(key, []):
        if off + 16 <= n:
            parts += [h.bytes('p%d' % pos, off - pos), ip]
            pos = off + 16
    if key == 'addr' and n > 29:
        h.assume(h.cells(parts[1])[0] < 0xfd)  # longer count forms shift the fixed bytes
    # an address cut short stays arbitrary: it cannot be read
    parts.append(h.bytes('p%d' % pos, n - pos))
    return h.concat(*parts)


def payload(h, cmd, n):
    from nbc.protocol import messages as M
    cname, spec = wire.MESSAGES[cmd]
    judge(h, getattr(M, cname), spec, arbitrary(h, cmd, n), n)


def compound(h, cname, n):
    from nbc.protocol import format as F
    judge(h, getattr(F, cname), wire.COMPOUND[cname], arbitrary(h, cname, n), n)


def cut(h, cmd, sizes):
    """a valid message cut short anywhere is refused (a version message may lose its optional last byte)"""
    from nbc.protocol import messages as M, format as F
    cname, spec = wire.MESSAGES[cmd]
    g = wire.Gen(h, lambda p: sizes.get('*n', 1), lambda p: sizes.get('*s', 1))
    vals, body = g.fields(spec)
    f, c = parse_of(getattr(M, cname))
    n = h.len(body)
    for k in range(n):
        st, r = h.call(f, c, body[:k])
        if cmd == 'version' and k == n - 1:
            h.check(st == 'ok', 'the optional last field may be missing')
        else:
            h.check(st == 'raise' and isinstance(r, F.ParameterError), 'cut at byte %d is refused' % k)


def huge_count(h, cmd, pre, n):
    """an enormous announced count over a short payload fails without building items"""
    from nbc.protocol import messages as M, format as F
    cname, spec = wire.MESSAGES[cmd]
    cnt = h.int('count', 1000, 2 ** 64 - 1)
    d = h.concat(h.bytes('pre', pre), b'\xff', h.to_le(cnt, 8), h.bytes('p', n))
    calls = [0]
    arr = [k for a, k in spec if isinstance(k, tuple) and k[0] == 'a'][0]
    f, c = parse_of(getattr(M, cname))
    st, r = h.call(f, c, d)
    h.check(st == 'raise' and isinstance(r, F.ParameterError), 'announced count larger than the payload is refused')


def limits(h, cmd, pre, item, over):
    """array limits are enforced on received messages: one over the maximum is refused, the maximum accepted"""
    from nbc.protocol import messages as M, format as F
    cname, spec = wire.MESSAGES[cmd]
    arr = [k for a, k in spec if isinstance(k, tuple) and k[0] == 'a'][0]
    hi = arr[3]
    cnt = hi + over
    first = h.concat(h.bytes('first', 12), IP4, h.bytes('port', 2)) if cmd == 'addr' else h.bytes('first', item)
    d = h.concat(b'\0' * pre, wire.varint(h, cnt), first, b'\1' * (item * (cnt - 1)))
    f, c = parse_of(getattr(M, cname))
    st, r = h.call(f, c, d)
    if over:
        h.check(st == 'raise' and isinstance(r, F.ParameterError), 'more items than the limit are refused')
    else:
        h.check(st == 'ok', 'the maximum number of items is accepted')


def empty_min(h, cmd):
    """arrays with a minimum refuse an empty list"""
    from nbc.protocol import messages as M, format as F
    cname, spec = wire.MESSAGES[cmd]
    f, c = parse_of(getattr(M, cname))
    d = h.concat(h.bytes('pre', 4), b'\0', h.bytes('rest', 40))
    st, r = h.call(f, c, d)
    h.check(st == 'raise' and isinstance(r, F.ParameterError), 'too few items are refused')


def alert(h, n):
    """alert contents are parsed on demand: values or an error, same on every access"""
    from nbc.protocol import messages as M
    body = h.bytes('body', n)
    a = h.run(M.Alert, payload=body, signature=b'')
    import struct
    st, v = h.call(getattr, a, 'version')
    if st == 'raise':
        h.check(isinstance(v, (struct.error, ValueError, IndexError)), 'short alert: %s' % type(v).__name__)
        return
    want = h.cells(body)
    u = h.le(body[0:4])
    h.check(h.twos(v, 4) == u, 'version is the first field')
    h.check(h.twos(a.relay_until, 8) == h.le(body[4:12]), 'relay_until')
    h.check(h.twos(a.expiration, 8) == h.le(body[12:20]), 'expiration')
    h.check(h.twos(a.id, 4) == h.le(body[20:24]), 'id')
    h.check(h.twos(a.cancel, 4) == h.le(body[24:28]), 'cancel')
    tot = 28 + 1 + 4 * len(a.set_cancel) + 8 + 1 + sum(h.len(s) + 1 for s in a.set_sub_ver) + 4 + 1 + h.len(a.comment) + 1 + h.len(a.status_bar) + 1 + h.len(a.reserved)
    h.check(tot <= n, 'no string is longer than what is there')


SIZES = {'version': [26, 46, 71, 79, 85, 86, 87], 'addr': [30, 31, 32, 61, 62], 'inv': [36, 37, 38, 73, 74], 'getdata': [37], 'notfound': [37], 'getblocks': [36, 37, 68, 69, 70, 101],
         'getheaders': [69], 'tx': [20, 46, 51, 55, 59], 'block': [80, 81, 82, 90], 'headers': [80, 81, 82, 83, 162, 163], 'reject': [], 'alert': []}


def instances(tier):
    T = tier == 'thorough'
    out = []
    for cmd in sorted(wire.MESSAGES):
        mx = 12 if cmd not in ('reject', 'alert') else 8
        for n in list(range(0, mx + (4 if T else 1))) + SIZES.get(cmd, []):
            out.append(Inst('payload[%s,%d]' % (cmd, n), payload, dict(cmd=cmd, n=n), cost=n))
    if T:
        for n in (60, 61, 66):
            out.append(Inst('payload[tx,%d]' % n, payload, dict(cmd='tx', n=n), cost=n))
    for c, ns in dict(NetworkAddress=[29, 30, 31], InventoryVector=[35, 36, 37], OutPoint=[35, 36, 37], TxnIn=[40, 41, 44], TxnOut=[8, 9, 12], Txn=[10, 59],
                      BlockHeader=[80, 81, 83, 85, 89]).items():
        for n in ns:
            out.append(Inst('compound[%s,%d]' % (c, n), compound, dict(cname=c, n=n), cost=n))
    for cmd in sorted(wire.MESSAGES):
        for s in () if not wire.MESSAGES[cmd][1] else ({'*n': 1, '*s': 1}, {'*n': 2, '*s': 3}):
            out.append(Inst('cut[%s,%d]' % (cmd, s['*n']), cut, dict(cmd=cmd, sizes=s), cost=20))
    for cmd, pre in (('addr', 0), ('inv', 0), ('headers', 0), ('getblocks', 4), ('tx', 4), ('block', 80)):
        for n in (0, 5, 12 if cmd in ('addr', 'block') else 85):
            out.append(Inst('huge_count[%s,%d]' % (cmd, n), huge_count, dict(cmd=cmd, pre=pre, n=n), cost=n))
    for cmd, item in (('addr', 30),) + ((('inv', 36),) if T else ()):
        for over in (0, 1):
            out.append(Inst('limits[%s,%d]' % (cmd, over), limits, dict(cmd=cmd, pre=0, item=item, over=over), cost=50))
    out.append(Inst('limits[inv,1]', limits, dict(cmd='inv', pre=0, item=36, over=1), cost=50))
    for cmd in ('tx', 'getblocks', 'getheaders'):
        out.append(Inst('empty_min[%s]' % cmd, empty_min, dict(cmd=cmd)))
    for n in (0, 27, 28, 36, 40, 44, 45) + ((46, 48) if T else ()):
        out.append(Inst('alert[%d]' % n, alert, dict(n=n), cost=n))
    return out
