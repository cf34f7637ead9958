"""Node bookkeeping: bans, address book and external address stay correct."""
from symx.inst import Inst
import netmodel as N

BOUNDS = ('bans: histories of up to 14 events (punish, upkeep, arrival) with arbitrary real gaps (up to three years), arrivals from arbitrary addresses in a /24; address book: up to five '
          'announced addresses with arbitrary ports, times and services on books of 0-3 and of 995-2500 entries; external address: up to four peers (thorough: five), '
          'two of them reporting any of 256 addresses, more any of four (thorough: 256), up to 21 (thorough: 111) peers with every division of their votes over two addresses and some over three')
OUTSIDE = 'larger histories; the order of equally recent addresses'
ASSUMPTIONS = ['time stands still inside one call', 'the event loop is a stand-in with the documented behaviour of asyncore.dispatcher']


def prepare():
    N.install()


def later(h, clock, name):
    d = h.real(name, 0, 10 ** 8)
    clock.t = h.run(lambda: clock.t + d)


def bans(h, events, same, others=0):
    clock = N.Clock(h)
    node = N.make_node(h, seek_peers=0)
    mine = '10.0.0.7'
    for i in range(others):     # more connections from the same place
        N.make_peer(h, node, (mine, 5001 + i))
    c, s = N.make_peer(h, node, (mine, 5000))
    score, banned, n = 0, [], 0
    for i, e in enumerate(events):
        if e == 'p':
            if c is None:
                return
            later(h, clock, 'gap%d' % i) if score >= 5 else None
            st, r = h.call(node.punish_peer, c)
            h.check(st == 'ok', 'punishing never fails')
            score += 1
            gone = s.closed > 0
            h.check(gone == (score > 5), 'disconnected when punished more than five times')
            if score > 5:
                banned.append((mine, clock.t))
                h.check(not any(p is c for p in node.values()), 'no longer watched')
        elif e == 'h':
            h.run(node.heartbeat)
            score = max(score - 1, 0)
        elif e in 'ab':
            later(h, clock, 'gap%d' % i)
            n += 1
            ip = mine if same else h.concat('10.0.0.', h.fmt('%d', h.int('host%d' % i, 0, 255)))
            new, t = N.arrive(h, node, (ip, 6000 + n))
            barred = h.any(False, *[h.all(h.eq(ip, who), h.run(lambda: clock.t - when) < 3600) for who, when in banned if h.len(ip) == h.len(who)])
            if new is None:
                h.check(barred, 'only a banned address is refused')
                h.check(t.closed >= 1, 'refused means closed')
            else:
                h.check(h.not_(barred), 'a banned address is refused for an hour')
                h.check(t.closed == 0, 'accepted')
                h.check(h.eq(new.ip, ip) and new.port == 6000 + n and new.incoming, 'connected to the one who came')
                if e == 'b':
                    c, s, score = new, t, 0
                    mine = ip


def unwanted(h):
    """a node that does not listen takes nobody"""
    clock = N.Clock(h)
    node = N.make_node(h, address=None)
    new, s = N.arrive(h, node, ('10.0.0.9', h.int('port', 1, 65535)))
    h.check(new is None and s.closed >= 1, 'closed at once')


def entries(h, n, first=0):
    return [('10.7.%d.%d' % ((i + first) // 250, (i + first) % 250), 8333, 1000000 + (i % 3) * 1000, 1) for i in range(n)]


def limit(name, default):
    from nbc.node import basenode
    return getattr(basenode, name, default)


def key(a):
    return (a.address, a.port)


def small(h, n, m):
    """every announced address is known with its latest time and services; one that left is not"""
    clock = N.Clock(h)
    node = N.make_node(h, seek_peers=0)
    c, s = N.make_peer(h, node, ('10.7.0.1', 8333))
    N.teach(h, node, entries(h, n))
    new = [('10.7.0.%d' % h.choice('host%d' % i, [0, 1, 9]), 8333, h.int('time%d' % i, 0, 2 ** 32 - 1), h.int('services%d' % i, 0, 2 ** 64 - 1)) for i in range(m)]
    N.teach(h, node, new)
    want = {}
    for ip, port, t, sv in entries(h, n) + new:
        want[ip] = (port, t, sv)
    got = N.book(h, node)
    h.check(got is not None, 'one answer')
    h.check(sorted(a.address for a in got) == sorted(want), 'all of them, once')
    for a in got:
        if a.address in want:
            port, t, sv = want[a.address]
            h.check(a.port == port and a.timestamp == t and a.services == sv, 'as last announced')
    for a, b in zip(got, got[1:]):
        h.check(a.timestamp >= b.timestamp, 'most recent first')
    h.run(c.handle_close)
    got = N.book(h, node)
    h.check(sorted(a.address for a in got) == sorted(x for x in want if x != '10.7.0.1'), 'a closed peer is forgotten, the others are not')


def full(h, room, m, via):
    """at its maximum nothing is added"""
    clock = N.Clock(h)
    node = N.make_node(h, seek_peers=0)
    top = limit('MAX_ADDRESSES', 2500)
    N.teach(h, node, entries(h, top - room))
    late = 4000000000
    if via == 'announced':
        ports = [h.int('port%d' % i, 1, 65535) for i in range(m)]
        if m > 1:
            h.assume(h.all(*[ports[i] != ports[j] for i in range(m) for j in range(i)]))
        N.teach(h, node, [('10.8.0.1', p, late + i, 1) for i, p in enumerate(ports)])
        fresh = [a for a in N.book(h, node) if a.address == '10.8.0.1']
        h.check(len(fresh) == min(m, room), 'as many as there is room for')
        h.check(all(any(h.all(a.port == p, a.timestamp == late + i) for i, p in enumerate(ports)) for a in fresh), 'as announced')
    else:
        from nbc import coins
        for i in range(m):
            c, s = N.make_peer(h, node, ('10.8.0.1', 100 + i))
            import wire
            g = wire.Gen(h, lambda path: 1, lambda path: 0)
            payload = b''
            for f, k in wire.MESSAGES['version'][1]:
                v, b = g.value(k, '%s %d' % (f, i))
                payload = h.concat(payload, b)
            magic = coins.Newbitcoin.magic
            clock.t = late + i
            s.inbox.append(h.concat(N.frame(h, magic, 'version', payload), N.frame(h, magic, 'verack', b'')))
            h.run(c.handle_read)
        fresh = [a for a in N.book(h, node) if a.address == '10.8.0.1']
        h.check(len(fresh) == min(m, room), 'as many as there is room for')
        h.check(all(a.timestamp == late + a.port - 100 for a in fresh), 'with the time they were heard')
    size = getattr(node, '_addresses', None)
    if size is not None:
        h.check(len(size) <= top, 'never more than the maximum')


def answer(h, n, m):
    """at most a thousand, none of them older than one left out"""
    clock = N.Clock(h)
    node = N.make_node(h, seek_peers=0)
    most = limit('ADDRESSES_PER_ASK', 1000)
    N.teach(h, node, entries(h, n))
    times = [h.int('time%d' % i, 0, 2 ** 32 - 1) for i in range(m)]
    N.teach(h, node, [('10.8.0.%d' % i, 1, t, 1) for i, t in enumerate(times)])
    everything = {(ip, port): t for ip, port, t, sv in entries(h, n) + [('10.8.0.%d' % i, 1, t, 1) for i, t in enumerate(times)]}
    got = N.book(h, node)
    h.check(got is not None and len(got) == min(most, n + m), 'a thousand at most, all if fewer')
    keys = set(key(a) for a in got)
    h.check(len(keys) == len(got) and all(k in everything for k in keys), 'known ones, once each')
    oldest = got[-1].timestamp
    for k, t in everything.items():
        if k not in keys:
            h.check(t <= oldest, 'none older than one left out')
    for a in got[:5] + got[-5:]:
        h.check(a.timestamp == everything[key(a)] and a.services == 1, 'with its time and services')
    for a, b in zip(got, got[1:]):
        h.check(a.timestamp >= b.timestamp, 'most recent first')


def unknown_services(h):
    """a peer that acknowledged before saying its version is not handed out"""
    from nbc import coins
    clock = N.Clock(h)
    node = N.make_node(h, seek_peers=0)
    c, s = N.make_peer(h, node, ('10.8.0.1', 1))
    s.inbox.append(N.frame(h, coins.Newbitcoin.magic, 'verack', b''))
    h.run(c.handle_read)
    N.teach(h, node, entries(h, 2))
    got = N.book(h, node)
    h.check(got is not None and sorted(a.address for a in got) == ['10.7.0.0', '10.7.0.1'], 'only addresses with known services')
    # the reply reaches the wire
    d, t = N.make_peer(h, node, ('10.8.0.2', 1))
    t.inbox.append(N.frame(h, coins.Newbitcoin.magic, 'getaddr', b''))
    h.run(d.handle_read)
    h.run(d.handle_write)
    h.check(len(t.sent) == 2 and h.len(t.sent[1]) == 24 + 1 + 2 * 30, 'both on the wire')


def external(h, n, mine, hosts=(0, 255)):
    """the address most peers report"""
    from nbc import coins
    magic = coins.Newbitcoin.magic
    clock = N.Clock(h)
    node = N.make_node(h, seek_peers=0)
    h.check(node.external_ip == '127.0.0.1', 'its own address while nobody reported one')
    if mine:
        node.external_ip = '10.3.3.3'
    seen = []
    for i in range(n):
        c, s = N.make_peer(h, node, ('10.0.0.%d' % i, 8333))
        b = h.int('host%d' % i, *hosts)
        na = lambda last: h.concat(bytes(8), bytes(10) + b'\xff\xff\x09\x09\x09', h.to_be(last, 1), b'\0\0')
        payload = h.concat(bytes(20), na(b), na(1), bytes(8), b'\0', bytes(4))
        s.inbox.append(N.frame(h, magic, 'version', payload))
        h.run(c.handle_read)
        seen.append(b)
        h.check(h.eq(c.external_ip, h.fmt('9.9.9.%d', b)), 'recorded')
        if mine:
            h.check(node.external_ip == '10.3.3.3', 'an address set by hand wins')
            continue
        counts = [h.run(lambda: sum(h.ite(x == y, 1, 0) for y in seen)) for x in seen]
        ok = [h.all(h.eq(node.external_ip, h.fmt('9.9.9.%d', x)), *[cx >= cy for cy in counts]) for x, cx in zip(seen, counts)]
        h.check(h.any(*ok), 'reported by most of them')


def poll(h, n, more):
    """many peers and few answers"""
    from nbc import coins
    magic = coins.Newbitcoin.magic
    clock = N.Clock(h)
    node = N.make_node(h, seek_peers=0)
    k = h.choice('first', range(0, n + 1))
    j = h.choice('second', sorted(set((0, (n - k) // 2, n - k)))) if more else n - k
    hosts = [more[0] if more else 9] * k + [7] * j + [100] * (n - k - j)
    for i, b in enumerate(hosts):
        c, s = N.make_peer(h, node, ('10.0.0.%d' % i, 8333))
        na = lambda last: bytes(8) + bytes(10) + b'\xff\xff\x09\x09\x09' + bytes([last]) + b'\0\0'
        s.inbox.append(N.frame(h, magic, 'version', bytes(20) + na(b) + na(1) + bytes(8) + b'\0' + bytes(4)))
        h.run(c.handle_read)
    top = max(hosts.count(b) for b in hosts)
    h.check(node.external_ip in ['9.9.9.%d' % b for b in hosts if hosts.count(b) == top], 'reported by most of them')


def instances(tier):
    deep = tier == 'thorough'
    out = []
    for ev in ('ppppp' 'a', 'pppppp' 'aa', 'pppppp' 'aaa', 'ppphppp', 'ppphpppp' 'a', 'pppppp' 'b' 'pppppa', 'pppppp' 'b' 'pppppp' 'a', 'phhpppppa', 'a', 'pa'):
        out.append(Inst('bans[%s,same]' % ev, bans, dict(events=ev, same=True)))
        if 'a' in ev:
            out.append(Inst('bans[%s]' % ev, bans, dict(events=ev, same=False)))
    for ev, k in (('ppppppaa', 1), ('ppppppaaa', 2), ('ppppppbpppppp' 'aa', 1)):
        out.append(Inst('bans[%s,%d more]' % (ev, k), bans, dict(events=ev, same=True, others=k)))
    out.append(Inst('unwanted', unwanted))
    for n, m in ((0, 0), (0, 1), (1, 1), (3, 2), (2, 3)):
        out.append(Inst('small[%d,%d]' % (n, m), small, dict(n=n, m=m), cost=3))
    for room, m in ((0, 1), (1, 1), (1, 3), (2, 2)) + (((3, 5), (0, 3)) if deep else ()):
        for via in ('announced', 'peers'):
            out.append(Inst('full[%d,%d,%s]' % (room, m, via), full, dict(room=room, m=m, via=via), cost=8))
    for n, m in ((998, 1), (999, 1), (1000, 1), (1000, 2)) + (((1200, 2), (2400, 1), (1000, 3)) if deep else ()):
        out.append(Inst('answer[%d,%d]' % (n, m), answer, dict(n=n, m=m), cost=9))
    out.append(Inst('unknown_services', unknown_services))
    for n, hosts in ((1, (0, 255)), (2, (0, 255)), (3, (98, 101)), (4, (100, 102))) + (((3, (0, 255)), (4, (0, 255)), (5, (10, 13))) if deep else ()):
        out.append(Inst('external[%d,%d-%d]' % (n, hosts[0], hosts[1]), external, dict(n=n, mine=False, hosts=hosts), cost=n * n, time_s=800 if deep else 100))
    for n, more in ((5, (8,)), (12, ()), (21, ()), (13, (8,)), (111, ())):
        if deep or n < 100:
            out.append(Inst('poll[%d,%d]' % (n, len(more)), poll, dict(n=n, more=more), cost=n // 4, time_s=800 if deep else 100))
    out.append(Inst('external[2,set]', external, dict(n=2, mine=True)))
    return out
