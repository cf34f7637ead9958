"""Incoming messages do not depend on how the stream is cut."""
import errno
from symx.inst import Inst
import netmodel as N
import wire

BOUNDS = ('streams of up to three frames (pings, acknowledgements, address requests, wrong magic, wrong checksum, unknown command, payload that does not parse, '
          'handler that fails; every other byte arbitrary) and streams of up to 26 bytes with every byte arbitrary, announced lengths included; one message of up to 600000 bytes (thorough: 2100000) in reads of at most 8192; up to 300 messages in a read; '
          'delivered in one, two or three reads with the cuts anywhere (quick: in streams of three frames and more, near frame boundaries), and byte by byte')
OUTSIDE = 'longer streams: the state between reads is the unfinished tail alone, which every two-read case passes through'
ASSUMPTIONS = ['the event loop is a stand-in with the documented behaviour of asyncore.dispatcher']


def prepare():
    N.install()


class Log(object):
    def __init__(self, h):
        self.h, self.events = h, []


def recorder(log, fail=None):
    """the real node with every handler recording what it is given"""
    from nbc.node import basenode

    class Node(basenode.BaseNode):
        def invalid_command(self, peer, payload, exception):
            log.append(('invalid', payload, type(exception).__name__))

        def __getattribute__(self, name):
            if name.startswith('command_'):
                def handle(peer, **kw):
                    log.append((name, kw))
                    if name == fail:
                        raise KeyError('handler')
                return handle
            return basenode.BaseNode.__getattribute__(self, name)
    return Node


MAGIC = b'\xf9\xbe\xb4\xd9'


def make(h, kind, i):
    """-> (frame bytes, expected event)"""
    from nbc import coins
    magic = coins.Newbitcoin.magic
    if kind == 'ping':
        p = h.noise('nonce%d' % i, 8)
        return N.frame(h, magic, 'ping', p), ('command_ping', dict(nonce=p))
    if kind == 'pong':      # its handler fails
        p = h.noise('nonce%d' % i, 8)
        return N.frame(h, magic, 'pong', p), ('command_pong', dict(nonce=p))
    if kind == 'verack':
        return N.frame(h, magic, 'verack', b''), ('command_version_ack', {})
    if kind == 'getaddr':
        return N.frame(h, magic, 'getaddr', b''), ('command_get_address', {})
    if kind == 'magic':
        m = h.bytes('magic%d' % i, 4)
        h.assume(h.not_(h.eq(m, magic)))
        f = N.frame(h, m, 'verack', b'')
    elif kind == 'checksum':
        p = h.noise('payload%d' % i, 8)
        s = h.bytes('sum%d' % i, 4)
        h.assume(h.not_(h.eq(s, h.sha('sha256', h.sha('sha256', p))[:4])))
        f = h.concat(magic, b'ping' + bytes(8), b'\x08\0\0\0', s, p)
    elif kind == 'unknown':
        f = N.frame(h, magic, 'nosuch', h.noise('payload%d' % i, 3))
    elif kind == 'short':
        f = N.frame(h, magic, 'ping', h.noise('payload%d' % i, 7))
        return f, ('bad', f)
    return f, ('invalid', f)


def same(h, got, want):
    if got[0] != want[0]:
        return False
    if want[0] == 'invalid':
        return h.eq(got[1], want[1])
    if sorted(got[1]) != sorted(want[1]):
        return False
    return h.all(*[h.eq(got[1][k], want[1][k]) for k in want[1]])


def deliver(h, parts, fail='command_pong'):
    log = []
    clock = N.Clock(h)
    node = N.make_node(h, recorder(log, fail))
    c, s = N.make_peer(h, node)
    before = c.rx_bytes
    h.check(before == 0, 'nothing received yet')
    after = []
    for p in parts:
        s.inbox.append(p)
        clock.t += 1
        st, r = h.call(c.handle_read)
        h.check(st == 'ok', 'reading never fails')
        after.append(len(log))
        h.check(c.timestamp == clock.t, 'the time it was last heard from')
    return log, node, c, s, after


def settle(h, log, events, label='every message framed in the stream, in order'):
    """bad payloads may or may not be reported: they only must not affect the others"""
    got = [e for e in log if e[0] != 'invalid' or not any(w[0] == 'bad' and h.eq(e[1], w[1]) for w in events)]
    want = [w for w in events if w[0] != 'bad']
    h.check(len(got) == len(want), label + ': how many')
    for g, w in zip(got, want):
        h.check(same(h, g, w), label)


def stream(h, kinds, cuts, near=False):
    frames = [make(h, k, i) for i, k in enumerate(kinds)]
    data = h.concat(*[f for f, e in frames])
    total = h.len(data)
    ends = []
    for f, e in frames:
        ends.append((ends[-1] if ends else 0) + h.len(f))
    if cuts == 'bytes':
        at = list(range(1, total))
    else:
        at, lo = [], 0
        for i in range(cuts):
            places = range(lo + 1, total - (cuts - 1 - i))
            if near and (i or len(kinds) > 2):
                marks = set(x + d for x in [0] + ends for d in (-1, 0, 1, 16, 19, 20, 23, 24, 25)) | {lo + 1, total - 1}
                places = [x for x in places if x in marks]
            lo = h.choice('cut%d' % i, places)
            at.append(lo)
    parts = [data[a:b] for a, b in zip([0] + at, at + [total])]
    log, node, c, s, after = deliver(h, parts)
    settle(h, log, [e for f, e in frames])
    if 'short' not in kinds:
        for n, b in zip(after, at + [total]):
            h.check(n == sum(e <= b for e in ends), 'each as soon as it is complete')
    h.check(c.rx_bytes == total, 'received bytes counted')
    h.check(getattr(node, '_rx_bytes', total) == total, 'received bytes counted for the node')
    tail = getattr(c, '_recv_buffer', b'')
    h.check(h.len(tail) == 0, 'nothing left over')
    h.check(s.closed == 0, 'the connection stays open')


def arbitrary(h, n, cut):
    """every byte of the stream arbitrary, the length field too"""
    from nbc import coins
    from nbc.protocol import messages as M
    data = h.bytes('d', n)
    length = h.le(data[16:20]) + 24 if n >= 20 else None
    want, at = [], 0
    while n - at >= 20:
        length = h.le(data[at + 16:at + 20]) + 24
        size = None
        for k in range(24, n - at + 1):
            if length == k:
                size = k
                break
        if size is None:
            break
        st, m = h.call(M.Message.parse, data[at:at + size], coins.Newbitcoin.magic)
        if st == 'ok':
            want.append(('command_' + m.name, dict((k, getattr(m, k)) for k, t in m.properties)))
        elif isinstance(m, (M.MsgFormatError, M.UnknownMsgError)):
            want.append(('invalid', data[at:at + size]))
        else:
            want.append(('bad', data[at:at + size]))
        at += size
    parts = [data] if cut is None else [data[:cut], data[cut:]]
    log, node, c, s, after = deliver(h, parts, None)
    settle(h, log, want)
    h.check(c.rx_bytes == n, 'received bytes counted')
    tail = getattr(c, '_recv_buffer', data[at:])
    h.check(h.eq(tail, data[at:]) if h.len(tail) == n - at else False, 'the unfinished tail is kept')
    rest = getattr(c, '_recv_buffer', None)
    h.check(s.closed == 0, 'the connection stays open')


def ending(h, how):
    """end of stream and read errors close the connection; the unfinished message is not handled"""
    f, e = make(h, 'ping', 0)
    g, e2 = make(h, 'ping', 1)
    cut = h.choice('cut', range(1, h.len(g)))
    log = []
    N.Clock(h)
    node = N.make_node(h, recorder(log))
    c, s = N.make_peer(h, node)
    s.inbox.append(h.concat(f, g[:cut]))
    h.run(c.handle_read)
    s.inbox.append(dict(end=b'', reset=OSError(errno.ECONNRESET, 'reset'), other=OSError(errno.EIO, 'input/output error'))[how])
    st, r = h.call(c.handle_read)
    h.check(st == 'ok', 'reading never fails')
    settle(h, log, [e])
    h.check(s.closed >= 1, 'the connection is closed')
    h.check(c not in list(node.values()), 'and no longer watched')
    h.check(c.rx_bytes == h.len(f) + cut, 'received bytes counted')


def logged(h, cmd):
    """whatever the log level, the message is handled, and so is the one after it"""
    import io
    from nbc import coins
    g = wire.Gen(h, lambda path: 1, lambda path: 2)
    payload, want = b'', {}
    for f, k in wire.MESSAGES[cmd][1]:
        v, b = g.value(k, f)
        payload = h.concat(payload, b)
        want[f] = v
    log = []
    clock = N.Clock(h)
    node = N.make_node(h, recorder(log), log=io.StringIO())
    c, s = N.make_peer(h, node)
    level = h.choice('level', [2, 4] if cmd == 'alert' else [0, 1, 2, 4])    # showing an alert parses what is inside
    node.log_level = level
    f, e = make(h, 'ping', 9)
    s.inbox.append(h.concat(N.frame(h, coins.Newbitcoin.magic, cmd, payload), f))
    st, r = h.call(c.handle_read)
    h.check(st == 'ok', 'reading never fails')
    h.check(len(log) == 2, 'both messages are handled')
    if len(log) == 2:
        h.check(sorted(log[0][1]) == sorted(want), 'with its fields')
        h.check(same(h, log[1], e), 'the next one too')
        for k, kind in wire.MESSAGES[cmd][1]:
            h.check(wire.same(h, log[0][1][k], want[k], kind), 'with its values')


def two(h):
    """two connections do not share a stream"""
    from nbc import coins
    log = []
    N.Clock(h)
    node = N.make_node(h, recorder(log))
    a, sa = N.make_peer(h, node, ('10.0.0.1', 1))
    b, sb = N.make_peer(h, node, ('10.0.0.2', 2))
    f, e = make(h, 'ping', 0)
    g, e2 = make(h, 'ping', 1)
    i = h.choice('i', range(1, h.len(f)))
    j = h.choice('j', [1, 16, 20, 24, h.len(g) - 1])
    for c, s, part in ((a, sa, f[:i]), (b, sb, g[:j]), (a, sa, f[i:]), (b, sb, g[j:])):
        s.inbox.append(part)
        h.run(c.handle_read)
    settle(h, log, [e, e2])
    h.check(a.rx_bytes == h.len(f) and b.rx_bytes == h.len(g), 'received bytes counted for each')
    h.check(getattr(node, '_rx_bytes', None) in (None, h.len(f) + h.len(g)), 'and for the node')


def large(h, n, chunk, last):
    """a message far longer than one read, then another"""
    from nbc import coins
    big = h.blob('payload', n, n)
    f = N.frame(h, coins.Newbitcoin.magic, 'nosuch', big)
    g, e = make(h, 'ping', 0)
    data = h.concat(f, g)
    total = h.len(data)
    first = h.choice('first', [1, 19, 20, 24, 25, chunk - 1, chunk])
    at = list(range(first, total, chunk)) + ([total - 1] if last else [])
    log, node, c, s, after = deliver(h, [data[a:b] for a, b in zip([0] + at, at + [total])])
    settle(h, log, [('invalid', f), e])
    h.check(c.rx_bytes == total, 'received bytes counted')
    h.check(s.closed == 0, 'the connection stays open')


def burst(h, n, per):
    """many messages in one read"""
    frames = [make(h, 'ping' if i % per == 0 else 'verack', i) for i in range(n)]
    data = h.concat(*[f for f, e in frames])
    cut = h.choice('cut', [0, 1, h.len(data) // 2, h.len(data) - 1])
    log, node, c, s, after = deliver(h, ([data[:cut]] if cut else []) + [data[cut:]])
    settle(h, log, [e for f, e in frames])


KINDS = ['ping', 'pong', 'verack', 'magic', 'checksum', 'unknown', 'short']


def instances(tier):
    deep = tier == 'thorough'
    out = []
    for k in KINDS + ['getaddr']:
        out.append(Inst('stream[%s,1]' % k, stream, dict(kinds=(k, 'ping'), cuts=1), cost=2))
        out.append(Inst('stream[%s,bytes]' % k, stream, dict(kinds=(k, 'verack'), cuts='bytes'), cost=2))
    for ks in (('ping',), ('verack', 'ping', 'verack'), ('pong', 'ping', 'pong'), ('short', 'unknown', 'ping'), ('checksum', 'magic', 'ping'), ('verack', 'verack', 'verack', 'ping')):
        out.append(Inst('stream[%s,0]' % '+'.join(ks), stream, dict(kinds=ks, cuts=0), cost=1))
        out.append(Inst('stream[%s,1]' % '+'.join(ks), stream, dict(kinds=ks, cuts=1), cost=3))
        out.append(Inst('stream[%s,2]' % '+'.join(ks), stream, dict(kinds=ks, cuts=2, near=not deep), cost=9, time_s=800 if deep else 100, max_paths=20000))
    for cmd in sorted(wire.MESSAGES):
        out.append(Inst('logged[%s]' % cmd, logged, dict(cmd=cmd), cost=2))
    for n, cut in ((19, None), (20, None), (23, None), (24, None), (25, None), (20, 19), (24, 17), (25, 24)) + (((26, None), (26, 20), (32, 20), (48, None), (49, 24)) if deep else ()):
        out.append(Inst('arbitrary[%d,%s]' % (n, cut), arbitrary, dict(n=n, cut=cut), cost=5))
    for how in ('end', 'reset', 'other'):
        out.append(Inst('ending[%s]' % how, ending, dict(how=how)))
    out.append(Inst('two', two))
    for n, chunk in ((8192, 8192), (9000, 4000), (40000, 8192), (70000, 8192)) + (((1100000, 8192), (2100000, 8192)) if deep else ((600000, 8192),)):
        out.append(Inst('large[%d,%d]' % (n, chunk), large, dict(n=n, chunk=chunk, last=n == 9000), cost=8))
    for n, per in ((40, 3), (300, 50)):
        out.append(Inst('burst[%d]' % n, burst, dict(n=n, per=per), cost=5))
    return out
