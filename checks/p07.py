"""Outgoing bytes are sent once, in order, through partial sends."""
import errno
from symx.inst import Inst
import netmodel as N

BOUNDS = ('up to four queued messages and five writes; the socket takes any number of bytes at the first write and at the others (quick: at the later ones a '
          'selection around message boundaries), queues of up to 35000 bytes, or 9 megabytes of fixed content; or it fails with any error number at any write; message contents arbitrary')
OUTSIDE = 'longer histories: what is kept between writes is the unsent tail alone'
ASSUMPTIONS = ['the event loop is a stand-in with the documented behaviour of asyncore.dispatcher']


def prepare():
    N.install()


ERRORS = dict(reset=errno.ECONNRESET, pipe=errno.EPIPE, notconn=errno.ENOTCONN, other=None)


def message(h, kind, i):
    """-> (message, its bytes)"""
    from nbc import coins
    from nbc.protocol import messages as M
    magic = coins.Newbitcoin.magic
    if kind in ('ping', 'pong'):
        p = h.noise('nonce%d' % i, 8)
        return h.run(M.Ping if kind == 'ping' else M.Pong, p), N.frame(h, magic, kind, p)
    return h.run(M.VersionAck if kind == 'verack' else M.GetAddress), N.frame(h, magic, kind, b'')




def setup(h):
    from nbc.node import basenode

    class Node(basenode.BaseNode):
        gone = 0

        def disconnected(self, peer):
            self.gone += 1
            basenode.BaseNode.disconnected(self, peer)
    clock = N.Clock(h)
    node = N.make_node(h, Node)
    c, s = N.make_peer(h, node)
    return clock, node, c, s


def taken(h, s, k):
    """what the socket took of the k bytes it was ready for (the connection may offer less at a time, but something)"""
    n = h.len(s.sent[-1])
    h.check(n == k or 0 < n < k, 'unsent bytes are offered')
    return n


def flush(h, c):
    for i in range(1000):
        if not h.run(c.writable):
            break
        h.run(c.handle_write)


def bulk(h, sizes, takes):
    """megabytes waiting, the messages of fixed content"""
    from nbc import coins
    from nbc.protocol import messages as M
    magic = coins.Newbitcoin.magic
    clock, node, c, s = setup(h)
    base, base_node = c.tx_bytes, getattr(node, '_tx_bytes', None)
    del s.sent[:]
    queued = b''
    for i, n in enumerate(sizes):
        p = bytes([i + 65]) * n
        m = h.run(M.Reject, p, i, b'')
        b = h.run(m.binary, magic)
        body = b'\xfe' + n.to_bytes(4, 'little') + p + bytes([i, 0])
        h.check(h.eq(b, N.frame(h, magic, 'reject', body)), 'serialised')
        h.run(c.send_message, m)
        queued += bytes(b)
        if i < takes:
            k = h.choice('takes%d' % i, [x for x in (0, 1, 8192, len(queued) // 2) if x < len(queued)])
            s.taker = lambda data: min(k, len(data))
            h.run(c.handle_write)
    s.taker = len
    flush(h, c)
    h.check(bytes(h.concat(*s.sent)) == queued, 'exactly the messages, in order')
    h.check(c.tx_bytes == base + len(queued) and getattr(node, '_tx_bytes', None) in (None, base_node + len(queued)), 'sent bytes counted')


def history(h, ops, near):
    """ops: a message kind to queue, or 'w' for a write taking any number of bytes"""
    clock, node, c, s = setup(h)
    base, base_node = c.tx_bytes, getattr(node, '_tx_bytes', None)
    h.check(base == h.len(s.sent[0]), 'sent bytes counted')
    del s.sent[:]
    queued, marks, out = b'', [0], 0
    h.check(not c.writable(), 'nothing to write')
    writes = 0
    for i, op in enumerate(ops):
        if op != 'w':
            m, b = message(h, op, i)
            st, r = h.call(c.send_message, m)
            h.check(st == 'ok', 'a message can be queued')
            queued = h.concat(queued, b)
            marks.append(h.len(queued))
            h.check(bool(c.writable()), 'asks to be written')
            continue
        left = h.len(queued) - out
        if not h.run(c.writable):
            h.check(left == 0, 'asks to be written while bytes remain')
            continue
        h.check(left > 0, 'asks to be written only while bytes remain')
        places = range(0, left + 1)
        if near and (writes or len(ops) > 5):
            places = [k for k in places if k in (0, 1, left) or any(abs(out + k - m) <= 1 for m in marks)]
        k = h.choice('takes%d' % i, places)
        writes += 1
        s.taker = lambda data: min(k, h.len(data))
        before = len(s.sent)
        clock.t += 1
        st, r = h.call(c.handle_write)
        h.check(st == 'ok', 'writing never fails')
        h.check(len(s.sent) == before + 1, 'one write')
        if len(s.sent) == before + 1:
            k = taken(h, s, k)
            h.check(h.eq(s.sent[-1], queued[out:out + k]) if h.len(s.sent[-1]) == k else False, 'the bytes sent are the next ones')
        out += k
        h.check(c.tx_bytes == base + out, 'sent bytes counted')
        h.check(getattr(node, '_tx_bytes', None) in (None, base_node + out), 'sent bytes counted for the node')
        h.check(bool(h.run(c.writable)) == (out < h.len(queued)), 'asks to be written exactly while bytes remain')
    s.taker = lambda data: h.len(data)
    flush(h, c)
    h.check(h.eq(h.concat(*s.sent), queued) if sum(map(h.len, s.sent)) == h.len(queued) else False, 'exactly the messages, in order')
    h.check(not h.run(c.writable), 'nothing remains')
    h.check(s.closed == 0 and node.gone == 0, 'the connection stays open')


def large(h, n, takes):
    """far more queued than one write takes"""
    clock, node, c, s = setup(h)
    base, base_node = c.tx_bytes, getattr(node, '_tx_bytes', None)
    del s.sent[:]
    m, b = message(h, 'ping', 0)
    m2, b2 = message(h, 'verack', 1)
    for i in range(n):
        h.run(c.send_message, m)
    h.run(c.send_message, m2)
    queued = h.concat(*([b] * n + [b2]))
    total, out, i = h.len(queued), 0, 0
    while out < total and i < takes:
        left = total - out
        k = h.choice('takes%d' % i, sorted(set(x for x in (0, 1, 4096, 8191, 8192, 8193, 65536, left - 1, left) if 0 <= x <= left)))
        s.taker = lambda data: min(k, h.len(data))
        h.run(c.handle_write)
        k = taken(h, s, k)
        out += k
        h.check(c.tx_bytes == base + out, 'sent bytes counted')
        h.check(getattr(node, '_tx_bytes', None) in (None, base_node + out), 'sent bytes counted for the node')
        h.check(bool(h.run(c.writable)) == (out < total), 'asks to be written exactly while bytes remain')
        i += 1
    s.taker = lambda data: h.len(data)
    flush(h, c)
    h.check(h.eq(h.concat(*s.sent), queued) if sum(map(h.len, s.sent)) == total else False, 'exactly the messages, in order')
    h.check(c.tx_bytes == base + total, 'sent bytes counted')


def failing(h, how, before):
    """the socket fails after some partial writes"""
    clock, node, c, s = setup(h)
    base = c.tx_bytes
    del s.sent[:]
    m, b = message(h, 'ping', 0)
    m2, b2 = message(h, 'verack', 1)
    h.run(c.send_message, m)
    h.run(c.send_message, m2)
    queued, out = h.concat(b, b2), 0
    for i in range(before):
        left = h.len(queued) - out
        k = h.choice('takes%d' % i, range(0, left) if i == 0 else [x for x in sorted(set([0, 1, max(h.len(b) - out, 0), left - 1])) if x < left])
        s.taker = lambda data: k
        h.run(c.handle_write)
        out += k
    attempts = s.attempts
    code = errno.EWOULDBLOCK if how == 'later' else ERRORS[how]
    if how == 'other':
        code = errno.EIO if before else h.choice('errno', [e for e in sorted(errno.errorcode) if e not in N.GONE and e not in (errno.EWOULDBLOCK, errno.EAGAIN)])

    def fail(data):
        raise OSError(code, how)
    s.taker = fail
    st, r = h.call(c.handle_write)
    h.check(st == 'ok', 'writing never fails')
    h.check(c.tx_bytes == base + out, 'only bytes actually sent are counted')
    if how == 'later':
        h.check(s.closed == 0 and node.gone == 0 and bool(h.run(c.writable)), 'still open and waiting to write')
        s.taker = lambda data: h.len(data)
        flush(h, c)
        h.check(h.eq(h.concat(*s.sent), queued) if sum(map(h.len, s.sent)) == h.len(queued) else False, 'exactly the messages, in order')
        return
    h.check(s.closed == 1, 'closed once')
    h.check(node.gone == 1, 'the node is told once')
    h.check(s.attempts == attempts + 1, 'nothing more is sent')
    h.check(not any(p is c for p in node.values()), 'no longer watched')
    h.check(h.eq(h.concat(b'', *s.sent), queued[:out]) if sum(map(h.len, s.sent)) == out else False, 'what was sent is a prefix')


def greeting(h, incoming):
    """the first bytes on the wire are one version message"""
    from nbc import coins
    from nbc.node import connection
    from nbc.protocol import messages as M
    clock = N.Clock(h)
    node = N.make_node(h)
    ip = h.choice('ip', ['10.0.0.1', '2001:db8:0:0:0:0:0:1'])
    port = h.int('port', 0, 65535)
    s = N.Socket((ip, port))
    kw = dict(sock=s) if incoming else {}
    c = h.run(connection.Connection, node=node, address=(ip, port), **kw)
    if not incoming:
        h.check(len(N.world.connected_to) == 1 and N.world.connected_to[0][0] == ip and N.world.connected_to[0][1] == port, 'connects to the address')
        s = N.world.made[-1]
    h.check(any(p is c for p in node.values()), 'watched by the node')
    h.check(c.incoming == incoming, 'direction')
    h.check(bool(h.run(c.writable)), 'asks to be written')
    k = h.choice('takes', [1, 24, 100, 10000])
    s.taker = lambda data: min(k, h.len(data))
    for i in range(200):
        if not h.run(c.writable):
            break
        h.run(c.handle_write)
    wire = h.concat(*s.sent)
    h.check(c.tx_bytes == h.len(wire), 'sent bytes counted')
    st, m = h.call(M.Message.parse, wire, coins.Newbitcoin.magic)
    h.check(st == 'ok' and type(m) is M.Version, 'a version message')
    if st == 'ok' and type(m) is M.Version:
        h.check(m.version == coins.Newbitcoin.protocol_version and m.timestamp == int(clock.t), 'version and time')
        h.check(m.addr_recv.address == ip and m.addr_recv.port == port, 'the address of the peer')
        h.check(m.addr_from.address == '127.0.0.1' and m.addr_from.port == 20303, 'our address')
        h.check(h.eq(m.nonce, clock.nonces[0]), 'a fresh nonce')
        h.check(h.len(m.binary(coins.Newbitcoin.magic)) == h.len(wire), 'and nothing else')


def instances(tier):
    deep = tier == 'thorough'
    out = []
    o = dict(max_paths=40000, time_s=800 if deep else 100)
    for ops in (('ping', 'w'), ('verack', 'ping', 'w'), ('ping', 'w', 'w', 'w'), ('verack', 'ping', 'w', 'w'), ('ping', 'w', 'verack', 'w', 'w'), ('ping', 'w', 'pong', 'w', 'verack', 'w'),
                ('verack', 'w', 'verack', 'w', 'w'), ('ping', 'getaddr', 'verack', 'w', 'w'), ('ping', 'w', 'ping', 'w', 'ping', 'w', 'w')):
        out.append(Inst('history[%s]' % ','.join(ops), history, dict(ops=ops, near=not deep), cost=len(ops), **o))
    for n, takes in ((260, 2), (1100, 1)):
        out.append(Inst('large[%d]' % n, large, dict(n=n, takes=takes), cost=6, **o))
    for sizes, takes in (((70000,) * 3, 2), ((700000, 70000, 900000, 66000), 1), ((3000000,) * 3 + (66000,), 1)):
        out.append(Inst('bulk[%d]' % sum(sizes), bulk, dict(sizes=sizes, takes=takes), cost=4, **o))
    for how in sorted(ERRORS) + ['later']:
        for before in (0, 1, 2):
            out.append(Inst('failing[%s,%d]' % (how, before), failing, dict(how=how, before=before)))
    out.append(Inst('greeting[in]', greeting, dict(incoming=True)))
    out.append(Inst('greeting[out]', greeting, dict(incoming=False)))
    return out
