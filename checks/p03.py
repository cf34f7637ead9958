"""A frame is accepted only with right magic, checksum and known command."""
from symx.inst import Inst
import wire

BOUNDS = ('frames of 0-25 bytes (thorough: 33) with every byte arbitrary (magic, command, length, checksum, payload; announced lengths 0 to 2^32-1), and frames of every '
          'registered command with payloads of 0-9 arbitrary bytes; expected magic arbitrary')
OUTSIDE = 'longer payloads (P04 covers the payload parsers); command fields with leading NUL bytes may be accepted or refused'
ASSUMPTIONS = ['SHA-256 is an uninterpreted function']


def verdict(h, d, magic, n, alone=False):
    """d: frame bytes (symbolic), n: their number; checks the outcome of parsing against the frame rules"""
    from nbc.protocol import messages as M, format as F
    st, r = h.call(M.Message.parse, d, magic)
    good_magic = h.eq(d[:4], magic) if n >= 4 else False
    if st == 'raise':
        h.check(isinstance(r, (M.MsgFormatError, M.UnknownMsgError, F.ParameterError)), 'only the documented errors: %s' % type(r).__name__)
    if n < 24:
        h.check(st == 'raise' and isinstance(r, M.MsgFormatError), 'incomplete header is a format error')
        return
    length = h.le(d[16:20])
    avail = n - 24
    complete = length <= avail
    # fork on the announced length so the payload is a plain byte string
    plen = None
    for k in range(avail + 1):
        if length == k:
            plen = k
            break
    if plen is None:
        h.check(st == 'raise' and isinstance(r, M.MsgFormatError), 'payload shorter than announced is a format error')
        return
    payload = d[24:24 + plen]
    good_sum = h.eq(d[20:24], h.sha('sha256', h.sha('sha256', payload))[:4])
    frame_ok = h.all(good_magic, good_sum)
    if st == 'raise' and isinstance(r, M.MsgFormatError):
        h.check(h.not_(frame_ok), 'a correct frame is not a format error')
        return
    h.check(frame_ok, 'magic and checksum are right when the frame is taken')
    field = d[4:16]
    c = h.cells(field)
    names = sorted(wire.MESSAGES)
    is_name = {m: h.eq(field, m.encode() + bytes(12 - len(m))) for m in names}
    lead0 = c[0] == 0
    if st == 'raise' and isinstance(r, M.UnknownMsgError):
        h.check(h.not_(h.any(*is_name.values())), 'a registered command is known')
        return
    hit = [m for m in names if is_name[m]]
    if not hit:
        h.check(lead0, 'an unregistered command is an unknown-command error')
        return
    cname, spec = wire.MESSAGES[hit[0]]
    if st == 'ok':
        h.check(type(r) is getattr(M, cname), 'the command decides the type')
        # the payload is exactly what was announced: parsing it alone gives the same fields
        off, alone_ = h.run(F.CompoundType.parse.__func__, getattr(M, cname), payload)
        for f, k in spec:
            h.check(wire.same(h, getattr(r, f), getattr(alone_, f), k), 'payload ends where announced')
        h.check(h.eq(r.magic, magic), 'magic is recorded')
    else:
        st2, r2 = h.call(F.CompoundType.parse.__func__, getattr(M, cname), payload)
        h.check(st2 == 'raise', 'a payload that parses is not refused')


def raw(h, n):
    d = h.bytes('d', n)
    magic = h.bytes('magic', 4)
    verdict(h, d, magic, n)


def known(h, cmd, n, extra):
    """registered command, everything else arbitrary, `extra` bytes following"""
    d = h.concat(h.bytes('m', 4), cmd.encode() + bytes(12 - len(cmd)), h.bytes('len', 4), h.bytes('sum', 4), h.bytes('payload', n + extra))
    verdict(h, d, h.bytes('magic', 4), 24 + n + extra)


def first_len(h, n):
    from nbc.protocol import messages as M
    d = h.bytes('d', n)
    r = h.run(M.Message.first_msg_len, d)
    if n < 20:
        h.check(r is None, 'too short to know the length')
    elif n >= 24 or r is not None:  # without a whole header, not knowing yet says the same
        h.check(r == h.le(d[16:20]) + 24, 'frame length is header plus announced payload')


def flip(h, cmd, n):
    """one byte of a correct frame changed: never accepted as the same message unless it is in the command field"""
    from nbc.protocol import messages as M, format as F
    payload = h.bytes('payload', n)
    magic = h.bytes('magic', 4)
    b = h.concat(magic, cmd.encode() + bytes(12 - len(cmd)), h.to_le(n, 4), h.sha('sha256', h.sha('sha256', payload))[:4], payload)
    x = h.int('x', 1, 255)
    for pos in list(range(4)) + list(range(16, 24)):
        cs = h.cells(b)
        cs[pos] = cs[pos] ^ x
        bad = h.from_cells('b', cs)
        st, r = h.call(M.Message.parse, bad, magic)
        if pos < 4 or pos >= 20:
            h.check(st == 'raise' and isinstance(r, M.MsgFormatError), 'corrupted header byte %d refused' % pos)
        elif st == 'ok':
            # a shorter announced length is only accepted if the hash happens to match
            k = h.le(bad[16:20])
            h.check(k <= n, 'longer announced payload refused')


def instances(tier):
    T = tier == 'thorough'
    out = []
    for n in list(range(0, 26)) + ([28, 32, 33] if T else []):
        out.append(Inst('raw[%d]' % n, raw, dict(n=n), cost=n))
    for cmd in sorted(wire.MESSAGES):
        for n, e in ((0, 0), (1, 0), (8, 0), (3, 2)) + (((5, 4), (16, 0)) if T else ()):
            out.append(Inst('known[%s,%d+%d]' % (cmd, n, e), known, dict(cmd=cmd, n=n, extra=e), cost=5))
    for n in (0, 16, 19, 20, 21, 24, 30):
        out.append(Inst('first_len[%d]' % n, first_len, dict(n=n)))
    for cmd, n in (('ping', 8), ('verack', 0), ('alert', 4)):
        out.append(Inst('flip[%s]' % cmd, flip, dict(cmd=cmd, n=n)))
    return out
