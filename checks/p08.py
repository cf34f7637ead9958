"""A message that could be built can always be serialised."""
from symx.inst import Inst
import wire

BOUNDS = ('every field of every message and compound type, one at a time, given: any integer, any real, any bool, byte strings of 0-40 bytes (and 0-300 of symbolic length), '
          'texts of 0-3 characters below U+0180, other objects, sequences of 0-2 items and of the declared limits and one beyond, sequences with one bad item; other fields valid. '
          'Two fields at a time are not varied together')
OUTSIDE = 'instances of user-defined subclasses of the accepted types; messages beyond 2^32 bytes'
ASSUMPTIONS = ['SHA-256 is an uninterpreted function']


def THOROUGH():
    import os
    return os.environ.get('VERIF_TIER_ACTIVE') == 'thorough'


def spec_of(cname):
    for d in (wire.MESSAGES, wire.UNREGISTERED):
        for c, (n, s) in d.items():
            if n == cname:
                return s, True
    return wire.COMPOUND[cname], False


ANY = ['int', 'real', 'bool', 'none', 'bytes', 'str', 'list', 'obj', 'bytearray', 'dict', 'float_nan', 'float_inf', 'intlist']


def variants(name, kind):
    out = list(ANY)
    if isinstance(kind, int):
        out += ['bytes%d' % n for n in sorted({0, kind - 1, kind, kind + 1, 40}) if n >= 0]
    elif kind == 'str':
        out += ['bytes0', 'bytes3', 'blob', 'str3', 'str0']
    elif kind == 'ip':
        out += ['ip_good', 'ip6_good', 'ip_bad', 'ip6_bad']
    elif kind == 'na' or kind[0] == 'c':
        out += ['good', 'other']
    elif kind[0] == 'a':
        out += ['n0', 'n1', 'n2', 't1', 'badlast', 'badfirst', 'gen', 'set', 'mutate', 'keys']
        if kind[2]:
            out += ['min-1', 'min']
        if kind[3]:
            out += ['max', 'max+1']
    return out


def good_value(h, kind, path):
    g = wire.Gen(h, lambda p: 1, lambda p: 1)
    return g.value(kind, path)


def number(h, f, v, real, allow_float):
    """(accepted, encoder)"""
    big, f = f[0] == '>', f[-1]
    lo, hi = wire.RANGES[f]
    ok = h.all(v >= lo, v < hi) if (not real or allow_float) else False

    def enc():
        w = wire.WIDTH[f.lower()]
        u = v
        if real:
            u = h.run(int, v)
        if lo < 0:
            u = h.twos(u, w)
        return h.to_be(u, w) if big else h.to_le(u, w)
    return ok, enc


def make(h, name, kind, var):
    """-> (value, accepted: cond or None when either verdict is fine, encoder)"""
    isnum = isinstance(kind, str) and (kind[-1] in wire.RANGES or kind == 'v') and kind not in ('na',)
    allow_float = name == 'timestamp'
    if var == 'int':
        v = h.int('x', None, None)
        if isnum and kind != 'v':
            return (v,) + number(h, kind, v, False, allow_float)
        if kind == 'v':
            return v, h.all(v >= 0, v < 2 ** 64), None
        return v, False, None
    if var == 'real':
        v = h.real('x')
        if isnum and kind != 'v':
            return (v,) + number(h, kind, v, True, allow_float)
        return v, False, None
    if var == 'bool':
        return h.choice('x', [True, False]), (None if isnum else False), None
    if var == 'none':
        return None, False, None
    if var in ('float_nan', 'float_inf'):
        return float(var[6:]), False, None
    if var == 'bytearray':
        return bytearray(kind if isinstance(kind, int) else 1), False, None
    if var == 'dict':
        return {'a': 1}, False, None
    if var == 'obj':
        return object(), False, None
    if var == 'intlist' or var == 'list':
        v = [1, 2] if var == 'intlist' else ['a']
        if isinstance(kind, tuple) and kind[0] == 'a':
            k = kind[1]
            return v, (None if isinstance(k, str) and (k[-1] in wire.RANGES or k == 'str') else False), None
        return v, False, None
    if var.startswith('bytes'):
        n = int(var[5:] or 2)
        v = h.bytes('x', n)
        ok = n == kind if isinstance(kind, int) else kind == 'str'
        return v, ok, (lambda: h.concat(wire.varint(h, n), v) if kind == 'str' else v)
    if var == 'blob':
        v = h.blob('x', 0, 300)

        def enc():
            n = h.len(v)
            return h.concat(h.to_le(n, 1) if n < 253 else h.concat(b'\xfd', h.to_le(n, 2)), v)
        return v, True, enc
    if var.startswith('str'):
        n = int(var[3:] or 2)
        v = h.str('x', n, 0, 0x17f)
        if kind == 'ip':
            return v, None if n > 2 else (h.eq(v, '::') if n == 2 else False), None
        cs = h.cells(v)
        ok = h.all(True, *[c < 256 for c in cs]) if kind == 'str' else False
        return v, ok, lambda: h.concat(wire.varint(h, n), h.from_cells('b', cs))
    if var in ('ip_good', 'ip6_good'):
        t, b = wire.ADDRS[0 if var == 'ip_good' else 1]
        return t, True, lambda: b
    if var in ('ip_bad', 'ip6_bad'):
        return ('1.2.3.256' if var == 'ip_bad' else '1:2:3:4:5:6:7:8:9'), False, None
    if var == 'good':
        v, b = good_value(h, kind, 'x')
        return v, True, lambda: b
    if var == 'other':
        cls = wire.classes()
        want = 'NetworkAddress' if kind == 'na' else kind[1]
        o = 'TxnOut' if want != 'TxnOut' else 'OutPoint'
        v, b = good_value(h, ('c', o, wire.COMPOUND[o]), 'x')
        return v, False, None
    # arrays
    ck, mn, mx = kind[1], kind[2] or 0, kind[3]

    def items(n):
        if n > 3:
            v, b = good_value(h, ck, 'x')
            return [v] * n, lambda: h.concat(wire.varint(h, n), *[b] * n)
        vb = [good_value(h, ck, 'x%d' % i) for i in range(n)]
        return [v for v, b in vb], lambda: h.concat(wire.varint(h, n), *[b for v, b in vb])
    if var in ('n0', 'n1', 'n2', 't1', 'min-1', 'min', 'max', 'max+1', 'mutate'):
        n = {'n0': 0, 'n1': 1, 'n2': 2, 't1': 1, 'min-1': mn - 1, 'min': mn, 'max': mx, 'max+1': (mx or 0) + 1, 'mutate': 1}[var]
        vs, enc = items(n)
        ok = n >= mn and (mx is None or n <= mx)
        return (tuple(vs) if var == 't1' else vs), ok, enc
    vs, enc = items(2)
    if var == 'badlast':
        return [vs[0], None], False, None
    if var == 'badfirst':
        return [object(), vs[0]], False, None
    if var == 'gen':
        return (v for v in vs), False, None
    if var == 'keys':
        return {1: vs[0]}.values(), False, None
    if var == 'set':
        return {1, 2}, False, None
    raise AssertionError(var)


def field(h, cname, fname, var):
    from nbc.protocol import format as F
    spec, is_msg = spec_of(cname)
    cls = wire.classes()[cname]
    vals, encs = {}, []
    ok = True
    fkind = None
    for n, k in spec:
        if n == fname:
            fkind = k
            if isinstance(k, tuple) and k[0] == 'o':
                v, okf, enc = make(h, n, k[1], var)
                vals[n] = v
                encs.append((enc, okf))
                continue
            v, ok, enc = make(h, n, k, var)
            vals[n] = v
            encs.append(enc)
        else:
            v, b = good_value(h, k, n)
            vals[n] = v
            encs.append((lambda b=b: b))
    st, m = h.call(cls, **vals)
    if st == 'raise':
        h.check(isinstance(m, (F.ParameterError, TypeError)), 'refused with a parameter or type error, not %s' % type(m).__name__)
        h.check(ok is None or h.not_(ok), 'a valid field is not refused')
        return
    h.check(ok is None or ok, 'an invalid field is refused')
    if var == 'mutate' and isinstance(vals[fname], list):
        vals[fname].append(None)
    if var == 'max' and fkind[3] > 2000 and not THOROUGH():
        return
    st, b = h.call(m.binary, b'abcd') if is_msg else h.call(m.binary)
    h.check(st == 'ok', 'a built message serialises')
    if st != 'ok':
        return
    if is_msg:
        b = b[24:]
    parts = []
    for e in encs:
        if isinstance(e, tuple):
            enc, okf = e
            got = getattr(m, fname)
            if okf is None:
                return
            if okf is not False and bool(okf):
                parts.append(enc())
                h.check(got == vals[fname], 'a valid optional value is kept')
            else:
                parts.append(b'\x01')
                h.check(got is True, 'an invalid optional value becomes the default')
            continue
        if e is None:
            return
        parts.append(e())
    h.check(h.eq(b, h.concat(b'', *parts)), 'serialises to the value given')


def arguments(h, cname):
    """wrong number of arguments, unknown and repeated names"""
    spec, is_msg = spec_of(cname)
    cls = wire.classes()[cname]
    vals, order = {}, []
    for n, k in spec:
        v, b = good_value(h, k, n)
        vals[n] = v
        order.append(v)
    st, m = h.call(cls, *order)
    h.check(st == 'ok', 'positional arguments build the message')
    for drop in vals:
        kw = {k: v for k, v in vals.items() if k != drop}
        st, e = h.call(cls, **kw)
        h.check(st == 'raise' and isinstance(e, TypeError), 'a missing field is a type error')
    st, e = h.call(cls, **dict(vals, no_such_field=1))
    h.check(st == 'raise' and isinstance(e, TypeError), 'an unknown field is a type error')
    if order:
        st, e = h.call(cls, order[0], **vals)
        h.check(st == 'raise' and isinstance(e, TypeError), 'a field given twice is a type error')


def optional_missing(h):
    """a version payload without the relay byte"""
    from nbc.protocol import messages as M
    spec = wire.MESSAGES['version'][1]
    g = wire.Gen(h, lambda p: 1, lambda p: 1)
    vals, b = g.fields(spec[:-1])
    magic = b'abcd'
    frame = h.concat(magic, b'version\0\0\0\0\0', h.to_le(h.len(b), 4), h.sha('sha256', h.sha('sha256', b))[:4], b)
    m = h.run(M.Message.parse, frame, magic)
    h.check(m.relay is True, 'the default')
    h.check(h.eq(h.run(m.binary, magic)[24:], h.concat(b, b'\x01')), 'serialises with the default')


def instances(tier):
    out = []
    names = [n for n, s in wire.MESSAGES.values()] + [n for n, s in wire.UNREGISTERED.values()] + list(wire.COMPOUND)
    for c in names:
        for f, k in spec_of(c)[0]:
            for var in variants(f, k[1] if isinstance(k, tuple) and k[0] == 'o' else k):
                out.append(Inst('field[%s.%s,%s]' % (c, f, var), field, dict(cname=c, fname=f, var=var), cost=50 if var.startswith('max') else 1))
        out.append(Inst('arguments[%s]' % c, arguments, dict(cname=c)))
    out.append(Inst('optional_missing', optional_missing, {}))
    return out
