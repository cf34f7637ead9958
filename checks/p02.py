"""Every protocol message survives serialisation and parsing."""
from symx.inst import Inst
import wire

BOUNDS = ('all registered message types and compound types; numbers over their full range; arrays of 0-3 items (and 252/253/254 inventory items); strings of 0-3 '
          'bytes and strings of any length 0-300 / 0-70000 (symbolic length); text of 0, 1, 2 and 5 latin-1 characters for every string field; magic: any 4 bytes')
OUTSIDE = 'larger arrays; address texts other than the four fixed ones (P05 covers address text)'
ASSUMPTIONS = ['SHA-256 is an uninterpreted function']


def check_header(h, b, magic, command, payload):
    c = command.encode()
    h.check(h.eq(b[:4], magic), 'magic first')
    h.check(h.eq(b[4:16], c + bytes(12 - len(c))), 'command padded with zeros to 12 bytes')
    h.check(h.eq(b[16:20], h.to_le(h.len(payload), 4)), 'payload length')
    h.check(h.eq(b[20:24], h.sha('sha256', h.sha('sha256', payload))[:4]), 'checksum')
    h.check(h.eq(b[24:], payload), 'payload is the fields in wire order')


def message(h, cmd, sizes, addr=0):
    from nbc.protocol import messages as M
    cname, spec = wire.MESSAGES[cmd]
    g = wire.Gen(h, lambda p: sizes.get(p.split('.')[-1].split('[')[0], sizes.get('*n', 1)),
                 lambda p: sizes.get(p.split('.')[-1], sizes.get('*s', 1)), addr)
    vals, payload = g.fields(spec)
    cls = getattr(M, cname)
    m = h.run(cls, **vals)
    magic = h.bytes('magic', 4)
    b = h.run(m.binary, magic)
    check_header(h, b, magic, cmd, payload)
    r = h.run(M.Message.parse, b, magic)
    h.check(type(r) is cls, 'same message type')
    h.check(h.eq(r.magic, magic), 'parsed messages know their magic')
    for n, k in spec:
        h.check(wire.same(h, getattr(r, n), vals[n], k), 'field comes back: %s' % n)
    h.check(h.eq(h.run(r.binary, magic), b), 'parsed message serialises to the same bytes')


def compound(h, cname, sizes):
    from nbc.protocol import format as F
    spec = wire.COMPOUND[cname]
    g = wire.Gen(h, lambda p: sizes.get('*n', 1), lambda p: sizes.get('*s', 1))
    vals, payload = g.fields(spec)
    cls = getattr(F, cname)
    m = h.run(cls, **vals)
    b = h.run(m.binary)
    h.check(h.eq(b, payload), 'wire form')
    tail = h.bytes('tail', 2)
    n, r = h.run(cls.parse, h.concat(b, tail))
    h.check(n == h.len(payload), 'consumed length')
    h.check(type(r) is cls, 'same type')
    for f, k in spec:
        h.check(wire.same(h, getattr(r, f), vals[f], k), 'field comes back: %s' % f)
    h.check(h.eq(h.run(r.binary), b), 'parsed object serialises to the same bytes')


def unregistered(h, cmd, sizes):
    from nbc.protocol import messages as M
    cname, spec = wire.UNREGISTERED[cmd]
    g = wire.Gen(h, lambda p: sizes.get('*n', 1), lambda p: sizes.get('*s', 1))
    vals, payload = g.fields(spec)
    cls = getattr(M, cname)
    m = h.run(cls, **vals)
    magic = h.bytes('magic', 4)
    b = h.run(m.binary, magic)
    check_header(h, b, magic, cmd, payload)
    h.check(cls not in M.Message.MessageTypes.values(), 'marked not registered')


def positional(h, cmd):
    """positional and keyword construction agree"""
    from nbc.protocol import messages as M
    cname, spec = wire.MESSAGES[cmd]
    g = wire.Gen(h, lambda p: 1, lambda p: 1)
    vals, payload = g.fields(spec)
    cls = getattr(M, cname)
    a = h.run(cls, *[vals[n] for n, k in spec])
    for n, k in spec:
        h.check(wire.same(h, getattr(a, n), vals[n], k), 'positional field: %s' % n)
    h.check(h.eq(h.run(a.binary, b'abcd')[24:], payload), 'positional payload')


def out_optional(h):
    """a version message without the trailing relay byte reads as relaying"""
    from nbc.protocol import messages as M
    cname, spec = wire.MESSAGES['version']
    g = wire.Gen(h, lambda p: 1, lambda p: 2)
    vals, payload = g.fields(spec)
    body = payload[:-1]
    magic = h.bytes('magic', 4)
    b = h.concat(magic, b'version' + bytes(5), h.to_le(h.len(body), 4), h.sha('sha256', h.sha('sha256', body))[:4], body)
    r = h.run(M.Message.parse, b, magic)
    h.check(r.relay is True, 'relay defaults to true')
    for n, k in spec[:-1]:
        h.check(wire.same(h, getattr(r, n), vals[n], k), 'field comes back: %s' % n)


def instances(tier):
    T = tier == 'thorough'
    out = []
    for cmd, (cname, spec) in sorted(wire.MESSAGES.items()):
        sizes = []
        has_a = any(isinstance(k, tuple) and k[0] == 'a' for n, k in spec)
        has_s = any(k == 'str' for n, k in spec) or cmd in ('tx', 'block')
        mins = {'getblocks': 1, 'getheaders': 1, 'tx': 1}.get(cmd, 0)
        for n in (range(mins, 4) if has_a else (0,)):
            for s in ((0, 1, 3) if has_s else (0,)):
                d = {'*n': n, '*s': s}
                if cmd == 'block':
                    d.update({'txns': n, '*n': 1})
                sizes.append(d)
        for d in sizes:
            out.append(Inst('message[%s,%s]' % (cmd, ','.join('%s' % v for k, v in sorted(d.items()))), message, dict(cmd=cmd, sizes=d)))
    for a in range(1, 4):
        out.append(Inst('message[version,addr%d]' % a, message, dict(cmd='version', sizes={}, addr=a)))
        out.append(Inst('message[addr,addr%d]' % a, message, dict(cmd='addr', sizes={'*n': 2}, addr=a)))
    for cmd, f in (('version', 'user_agent'), ('reject', 'message'), ('reject', 'reason'), ('alert', 'payload'), ('alert', 'signature'), ('tx', 'signature_script'), ('tx', 'pk_script')):
        for hi in (300, 70000):
            out.append(Inst('message[%s,%s<=%d]' % (cmd, f, hi), message, dict(cmd=cmd, sizes={f: (0, hi)})))
    for cmd in ('version', 'reject', 'alert', 'tx', 'block'):
        for n in (0, 1, 2, 5):
            out.append(Inst('text[%s,%d]' % (cmd, n), message, dict(cmd=cmd, sizes={'*s': ('t', n)})))
    for n in (252, 253, 254) + ((1000, 65536) if T else ()):
        if n <= 50000:
            out.append(Inst('message[inv,%d]' % n, message, dict(cmd='inv', sizes={'*n': n}), cost=9))
    out.append(Inst('message[addr,1000]', message, dict(cmd='addr', sizes={'*n': 1000}), cost=10) if T else Inst('message[addr,254]', message, dict(cmd='addr', sizes={'*n': 254}), cost=10))
    out.append(Inst('message[tx,in2out3]', message, dict(cmd='tx', sizes={'tx_in': 2, 'tx_out': 3, '*s': 4})))
    out.append(Inst('message[block,3x2]', message, dict(cmd='block', sizes={'txns': 3, '*n': 2, '*s': 2})))
    for c in sorted(wire.COMPOUND):
        for n in ((1, 2) if c == 'Txn' else (1,)):
            for s in ((0, 2) if c in ('Txn', 'TxnIn', 'TxnOut') else (0,)):
                out.append(Inst('compound[%s,%d,%d]' % (c, n, s), compound, dict(cname=c, sizes={'*n': n, '*s': s})))
    for c in ('TxnIn', 'TxnOut'):
        out.append(Inst('compound[%s,<=70000]' % c, compound, dict(cname=c, sizes={'*s': (0, 70000)})))
    for cmd in sorted(wire.UNREGISTERED):
        for n in (0, 2):
            out.append(Inst('unregistered[%s,%d]' % (cmd, n), unregistered, dict(cmd=cmd, sizes={'*n': n, '*s': n})))
    for cmd in sorted(wire.MESSAGES):
        out.append(Inst('positional[%s]' % cmd, positional, dict(cmd=cmd)))
    out.append(Inst('out_optional', out_optional))
    return out
