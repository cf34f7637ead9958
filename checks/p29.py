"""Idle and silent connections are pinged and dropped on time; handshake and upkeep."""
from symx.inst import Inst
import netmodel as N
import wire

BOUNDS = ('timers: histories of up to five events (write, read, check) with arbitrary real gaps (up to three years) between them; handshake: version messages with every field arbitrary, '
          'strings up to 3 bytes; upkeep: up to four looks at any times, up to 7 known addresses, up to 20 wanted peers, any of the first connections failing')
OUTSIDE = 'clocks running backwards; a connection that never sent or never heard anything (never pinged, never dropped)'
ASSUMPTIONS = ['time stands still inside one call', 'the event loop is a stand-in with the documented behaviour of asyncore.dispatcher']

MIN = 60


def prepare():
    N.install()


def later(h, clock, name):
    """time moves on by any amount"""
    d = h.real(name, 0, 10 ** 8)
    clock.t = h.run(lambda: clock.t + d)


def timers(h, events):
    from nbc import coins
    from nbc.protocol import messages as M
    magic = coins.Newbitcoin.magic
    clock = N.Clock(h)
    node = N.make_node(h)
    c, s = N.make_peer(h, node)         # greeting written at the start
    tx, rx, ping = clock.t, None, 0
    f = N.frame(h, magic, 'pong', b'12345678')
    pings, wired = 0, 0
    for i, e in enumerate(events):
        later(h, clock, 'gap%d' % i)
        if e == 'w':
            if h.run(c.writable):
                h.run(c.handle_write)
                tx = clock.t
        elif e == 'r':
            s.inbox.append(f)
            h.run(c.handle_read)
            rx = clock.t
        else:
            st, r = h.call(c.readable)
            h.check(st == 'ok', 'asking never fails')
            quiet, since = h.run(lambda: clock.t - tx), h.run(lambda: clock.t - ping)
            want = h.all(quiet > 30 * MIN, since > 5 * MIN)
            now = len(clock.nonces) - 1
            h.check(now - pings in (0, 1), 'at most one ping')
            h.check(want if now > pings else h.not_(want), 'a ping exactly when idle for 30 minutes, every 5 minutes')
            if now > pings:
                ping, pings = clock.t, now
                h.check(bool(h.run(c.writable)), 'the ping is queued')
            dead = False if rx is None else h.run(lambda: clock.t - rx) > 180 * MIN
            h.check(h.not_(dead) if r else dead, 'dropped exactly when silent for three hours')
            h.check((s.closed > 0) == (not r), 'dropped means closed')
            if not r:
                h.check(not any(p is c for p in node.values()), 'no longer watched')
                return
    # what was queued is exactly the pings
    n = len(s.sent)
    if h.run(c.writable):
        h.run(c.handle_write)
    want = h.concat(b'', *[N.frame(h, magic, 'ping', x) for x in clock.nonces[1:]])
    got = h.concat(b'', *s.sent[1:])
    h.check(h.eq(got, want) if h.len(got) == h.len(want) else False, 'each with a nonce of its own')


def version(h, slen, missing, addr):
    """every advertised detail is recorded, and acknowledged"""
    from nbc import coins
    magic = coins.Newbitcoin.magic
    g = wire.Gen(h, lambda path: 1, lambda path: slen, addr)
    payload, want = b'', {}
    for f, k in wire.MESSAGES['version'][1]:
        v, b = g.value(k, f)
        want[f] = v
        if f == 'relay' and missing:
            want[f] = True
            continue
        payload = h.concat(payload, b)
    clock = N.Clock(h)
    node = N.make_node(h)
    c, s = N.make_peer(h, node)
    h.check(not c.verack and c.version is None and c.external_ip is None and c.services is None, 'nothing known before')
    s.inbox.append(N.frame(h, magic, 'version', payload))
    st, r = h.call(c.handle_read)
    h.check(st == 'ok', 'reading never fails')
    for f, got in (('version', c.version), ('services', c.services), ('start_height', c.start_height), ('user_agent', c.user_agent), ('relay', c.relay)):
        h.check(h.eq(got, want[f]), 'recorded: ' + f)
    h.check(h.eq(c.external_ip, want['addr_recv'].address), 'recorded: the address it sees us at')
    h.check(h.eq(node.external_ip, want['addr_recv'].address), 'believed while nobody else says otherwise')
    h.check(not c.verack, 'not acknowledged yet')
    h.run(c.handle_write)
    reply = h.concat(b'', *s.sent[1:])
    ack = N.frame(h, magic, 'verack', b'')
    h.check(h.eq(reply, ack) if h.len(reply) == h.len(ack) else False, 'answered by one acknowledgement')
    s.inbox.append(ack)
    h.run(c.handle_read)
    h.check(bool(c.verack), 'acknowledged')
    h.check(not h.run(c.writable), 'nothing more to say')


def ping(h, n):
    """pings answered in order with their nonces, other messages by nothing"""
    from nbc import coins
    magic = coins.Newbitcoin.magic
    clock = N.Clock(h)
    node = N.make_node(h)
    c, s = N.make_peer(h, node)
    nonces = [h.bytes('nonce%d' % i, 8) for i in range(n)]
    s.inbox.append(h.concat(*[N.frame(h, magic, 'pong' if i == 1 else 'ping', x) for i, x in enumerate(nonces)]))
    h.run(c.handle_read)
    h.run(c.handle_write) if h.run(c.writable) else None
    want = h.concat(b'', *[N.frame(h, magic, 'pong', x) for i, x in enumerate(nonces) if i != 1])
    got = h.concat(b'', *s.sent[1:])
    h.check(h.eq(got, want) if h.len(got) == h.len(want) else False, 'a pong for each ping, with its nonce')


def upkeep(h, looks):
    """never twice in ten seconds"""
    from nbc.node import basenode
    beats = []

    class Node(basenode.BaseNode):
        def heartbeat(self):
            beats.append(clock.t)
            return basenode.BaseNode.heartbeat(self)
    clock = N.Clock(h)
    node = N.make_node(h, Node, seek_peers=0)
    last = None
    for i in range(looks):
        later(h, clock, 'gap%d' % i)
        n = len(beats)
        h.check(len(list(h.run(node.items))) == 1, 'only itself is watched')
        h.check(len(beats) - n in (0, 1), 'at most once')
        due = True if last is None else h.run(lambda: clock.t - last) > 10
        h.check(due if len(beats) > n else h.not_(due), 'upkeep runs when ten seconds have passed, not before')
        if len(beats) > n:
            last = clock.t


def seeking(h, known, peers, failing):
    """a heartbeat tries addresses it is not connected to, each at most once, up to the wanted number (five at a time)"""
    clock = N.Clock(h)
    wanted = h.int('wanted', 0, 20)
    node = N.make_node(h, seek_peers=wanted, bootstrap=False)
    book = [('10.0.0.%d' % i, 8333) for i in range(known)]
    there = []
    for i in range(peers):
        c, s = N.make_peer(h, node, book[i] if i < known else ('10.1.0.%d' % i, 8333))
        there.append(c.address)
    N.teach(h, node, [(a[0], a[1], 1700000000, 1) for a in book])
    bad = [a for a in book if a not in there][:failing]
    bad = [a for a in bad if h.bool('fails ' + a[0])]
    N.world.refuse = lambda a: a in bad
    st, r = h.call(node.heartbeat)
    h.check(st == 'ok', 'upkeep never fails')
    tried = N.world.connected_to
    h.check(len(set(tried)) == len(tried) and not any(a in there for a in tried), 'no address twice')
    h.check(all(a in book for a in tried), 'only known addresses')
    fresh = [a for a in book if a not in there]
    n = len(tried)
    missing = h.run(lambda: wanted - peers)
    h.check(h.any(n == 0, n <= missing), 'never more than wanted')
    h.check(h.any(n == 5, n == len(fresh), h.all(missing <= 0, n == 0), n == missing), 'as many as wanted, five at a time, while it knows addresses')
    now = [p.address for p in node.peers]
    h.check(sorted(now) == sorted(there + [a for a in tried if a not in bad]), 'the ones that answered are peers now')
    left = [(a.address, a.port) for a in N.book(h, node)]
    h.check(sorted(left) == sorted(a for a in book if a not in bad or a not in tried), 'the ones that failed are forgotten')


def seeds(h, have):
    """with no known address the seeds are used, within the limit of peers, and never one already connected"""
    clock = N.Clock(h)
    limit = h.int('limit', 0, 4)
    from nbc import coins
    a, b = ('10.9.0.1', 1), ('10.9.0.2', 2)

    class Coin(coins.Newbitcoin):
        dns_seeds = [a, b]
    node = N.make_node(h, seek_peers=16, max_peers=limit, bootstrap=True, coin=Coin)
    for i in range(have):
        N.make_peer(h, node, a if i == 0 else ('10.1.0.%d' % i, 8333))
    pick = h.int('pick', 0, 1)
    clock.random = [lambda x, y: pick] * 9
    total = len(node)
    st, r = h.call(node.add_any_peer)
    h.check(st == 'ok', 'never fails')
    tried = N.world.connected_to
    full = total >= limit
    taken = h.any(h.all(pick == 0, have > 0))
    h.check(len(tried) <= 1, 'one at a time')
    if tried:
        h.check(h.not_(h.any(full, taken)), 'not above the limit and not one already connected')
        h.check(h.ite(pick == 0, tried[0] == a, tried[0] == b), 'the seed drawn')
    else:
        h.check(h.any(full, taken), 'a seed is tried')


def asking(h, known, peers):
    """with few addresses a peer is asked for more; with enough, nobody is"""
    from nbc import coins
    magic = coins.Newbitcoin.magic
    clock = N.Clock(h)
    node = N.make_node(h, seek_peers=0)
    cs = [N.make_peer(h, node, ('10.0.0.%d' % i, 8333)) for i in range(peers)]
    N.teach(h, node, [('10.2.%d.%d' % (i // 200, i % 200), 1, 1700000000, 1) for i in range(known)])
    pick = h.int('pick', 0, max(peers - 1, 0))
    clock.random = [lambda x, y: pick] * 9
    st, r = h.call(node.heartbeat)
    h.check(st == 'ok', 'upkeep never fails')
    asked = []
    for i, (c, s) in enumerate(cs):
        if h.run(c.writable):
            h.run(c.handle_write)
            h.check(h.eq(h.concat(b'', *s.sent[1:]), N.frame(h, magic, 'getaddr', b'')), 'asked for addresses, once')
            asked.append(i)
    if known < 50 and peers:
        h.check(len(asked) == 1, 'one peer is asked')
        if asked:
            h.check(pick == asked[0], 'the one drawn')
    else:
        h.check(not asked, 'nobody is asked')


def instances(tier):
    deep = tier == 'thorough'
    out = []
    for ev in ('c', 'cc', 'ccc', 'rc', 'rcc', 'wc', 'cwc', 'rcwc', 'rccc', 'rcrc', 'ccwcc', 'rcwrc') + (('rcccc', 'ccwccc', 'rcwccwc') if deep else ()):
        out.append(Inst('timers[%s]' % ev, timers, dict(events=ev), cost=len(ev)))
    for slen, missing, addr in ((0, False, 0), (3, False, 1), (2, True, 0), (1, False, 3)):
        out.append(Inst('version[%d,%s,%d]' % (slen, missing, addr), version, dict(slen=slen, missing=missing, addr=addr)))
    for n in (1, 2, 3):
        out.append(Inst('ping[%d]' % n, ping, dict(n=n)))
    for n in (1, 2, 3, 4):
        out.append(Inst('upkeep[%d]' % n, upkeep, dict(looks=n)))
    for known, peers, failing in ((0, 0, 0), (1, 0, 1), (3, 1, 2), (7, 0, 2), (7, 2, 4), (7, 4, 0), (2, 2, 0), (7, 9, 0)):
        out.append(Inst('seeking[%d,%d,%d]' % (known, peers, failing), seeking, dict(known=known, peers=peers, failing=failing)))
    for have in (0, 1, 2):
        out.append(Inst('seeds[%d]' % have, seeds, dict(have=have)))
    for known, peers in ((0, 0), (0, 1), (49, 3), (50, 3), (51, 1)):
        out.append(Inst('asking[%d,%d]' % (known, peers), asking, dict(known=known, peers=peers)))
    return out
