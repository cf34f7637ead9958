"""Signatures verify and only valid ones do."""
from symx.inst import Inst
import ecmodel

BOUNDS = ('the signature equation on the six curves: every key, digest, nonce and pair (r, s) as integers modulo the order, points as polynomials over the base point; '
          'curves of order 7 to 29: every key, digest, nonce and pair with the real point arithmetic (some keys per curve; thorough: all); '
          'DER plumbing: every r and s of 31-33 bytes and shorter ones, arbitrary signature bytes of up to 8 (thorough: 10) bytes, corrupted encodings, numbers grown by up to three bytes, public keys of all headers and of 0-2, 32-34, 64-66 bytes, any digest')
OUTSIDE = 'hash functions and points themselves (P21); longer malformed signatures'
ASSUMPTIONS = ['inverse_mod gives the modular inverse (P22)', 'points of one group with different polynomial multiples of the base point are unrelated',
               'SHA-256 is a function of its input', 'secp256k1 as an abstract group where keys are decoded']
CURVES = ['NIST192p', 'NIST224p', 'NIST256p', 'NIST384p', 'NIST521p', 'SECP256k1']
# p, a, b, base point, its prime order
TOYS = {'17/13': (17, 6, 8, (0, 5), 13), '17/19': (17, 2, 2, (0, 6), 19), '19/13': (19, 0, 2, (4, 3), 13), '13/7': (13, 0, 6, (2, 1), 7), '11/13': (11, 1, 6, (2, 4), 13), '23/29': (23, 1, 4, (0, 2), 29)}


def ref_valid(Q, e, r, s, G, n, p, a):
    """SEC 1, 4.1.4"""
    if not (1 <= r < n and 1 <= s < n):
        return False
    w = pow(s, -1, n)
    pt = ecmodel._add(ecmodel.ref_mul(e * w % n, G, p, a), ecmodel.ref_mul(r * w % n, Q, p, a), p, a)
    return pt is not None and pt[0] % n == r


# ---------------------------------------------------------------- production curves: the equation

class Multiples(object):
    """points as integer multiples of the base point, told apart by polynomial normal form modulo the order"""

    def __init__(self, h, name):
        from nbc.util.ecdsa import curves, ellipticcurve as E, numbertheory as NT
        C = getattr(curves, name)
        self.h, self.E, self.C = h, E, C
        self.n, self.p, self.a, self.G = C.order, C.curve.p(), C.curve.a(), C.generator
        self.g = (self.G.x(), self.G.y())
        self.LN, self.LP = (self.n.bit_length() + 7) // 8, (self.p.bit_length() + 7) // 8
        if not h.symbolic:
            return
        P, m = E.Point, self
        self.names, self.invs = {}, []
        old = {k: vars(P)[k] for k in ('x', 'y', 'curve', 'order')}
        mine = lambda q: q is m.G or hasattr(q, '_mult')
        mul = lambda q, e: m.make(h.run(lambda: m.mult(q) * e))
        for name, f in (('__mul__', mul), ('__rmul__', mul), ('__add__', lambda q, o: m.make(h.run(lambda: m.mult(q) + m.mult(o)))),
                        ('double', lambda q: m.make(h.run(lambda: m.mult(q) * 2))), ('__eq__', lambda q, o: m.zero(h.run(lambda: m.mult(q) - m.mult(o)))),
                        ('__ne__', lambda q, o: h.not_(m.zero(h.run(lambda: m.mult(q) - m.mult(o))))),
                        ('x', lambda q: m.coord(q, 'X') if hasattr(q, '_mult') else old['x'](q)), ('y', lambda q: m.coord(q, 'Y') if hasattr(q, '_mult') else old['y'](q)),
                        ('curve', lambda q: C.curve if mine(q) else old['curve'](q)), ('order', lambda q: None if hasattr(q, '_mult') else old['order'](q))):
            h.only_symbolic_stub(P, name, f)
        h.replace(NT.inverse_mod, self.inverse)

    def nf(self, v):
        h = self.h
        if not h.is_sym(v):
            return frozenset({((), v % self.n)} if v % self.n else ())
        return frozenset(h.poly(v, self.n)[0].items())

    def name(self, kind, v, nbytes):
        k = (kind, self.nf(v))
        if k not in self.names:
            self.names[k] = self.h.be(self.h.uf('%s %d' % (kind, len(self.names)), nbytes, b''))
        return self.names[k]

    def zero(self, v):
        """is the multiple zero modulo the order"""
        nf = self.nf(v)
        if not nf:
            return True
        if all(k == () for k, c in nf):
            return False
        b = self.name('zero', v, 1)
        self.h.fact(b <= 1)
        return b == 1

    def mult(self, q):
        return 0 if q is self.E.INFINITY else 1 if q is self.G else q._mult

    def make(self, v):
        if not self.nf(v):
            return self.E.INFINITY
        q = self.E.Point.__new__(self.E.Point)
        q._mult = v
        return q

    def coord(self, q, which):
        v = self.mult(q)
        c = self.name(which, v, self.LP)
        self.h.fact(c < self.p)
        return c

    def inverse(self, a, m):
        h = self.h
        if not h.is_sym(a) or m != self.n:
            return pow(a, -1, m)
        nf = self.nf(a)
        for other, i in self.invs:
            if other == nf:
                return i
        i = h.be(h.uf('inverse %d' % len(self.invs), self.LN, b''))
        h.fact(h.all(i >= 1, i < m))
        self.invs.append((nf, i))
        return i

    def point(self, d):
        if self.h.symbolic:
            return self.make(d)
        x, y = ecmodel.ref_mul(d, self.g, self.p, self.a)
        return self.E.Point(self.C.curve, x, y)


def equation(h, name, part):
    """verification is the equation"""
    from nbc.util.ecdsa import ecdsa
    w = Multiples(h, name)
    d = h.scalar('d', w.n)
    Q = w.point(d)
    st, key = h.call(ecdsa.Public_key, w.G, Q)
    h.check(st == 'ok', 'a public key of a point of the group')
    e = h.int('e', 0, 256 ** w.LN - 1)
    lo, hi = dict(inside=(1, w.n - 1), below=(-w.n, 0), above=(w.n, 2 * w.n + 1)).get(part, (1, w.n - 1))
    r = h.int('r', lo, hi) if part != 'sabove' else h.int('r', 1, w.n - 1)
    slo, shi = dict(sabove=(w.n, 2 * w.n + 1), sbelow=(-w.n, 0)).get(part, (1, w.n - 1))
    s = h.int('s', slo, shi)
    st, ok = h.call(key.verifies, e, ecdsa.Signature(r, s))
    h.check(st == 'ok', 'verification answers')
    if st != 'ok':
        return
    if part != 'inside':
        h.check(h.not_(ok) if h.is_sym(ok) else ok is False or not ok, 'numbers out of range are refused')
        return
    if not h.symbolic:
        h.check(bool(ok) == ref_valid((Q.x(), Q.y()), e, r, s, w.g, w.n, w.p, w.a), 'the signature equation')
        return
    i = w.inverse(s, w.n)
    v = h.run(lambda: i * (e + r * d))
    want = h.all(h.not_(w.zero(v)), h.run(lambda: w.name('X', v, w.LP) % w.n) == r)
    h.check(h.all(h.implies(want, ok), h.implies(ok, want)), 'the signature equation')


def formula(h, name):
    """signing is the formula"""
    from nbc.util.ecdsa import ecdsa
    w = Multiples(h, name)
    d, k = h.scalar('d', w.n), h.scalar('k', w.n)
    Q = w.point(d)
    key = h.run(ecdsa.Private_key, h.run(ecdsa.Public_key, w.G, Q), d)
    e = h.int('e', 0, 256 ** w.LN - 1)
    x = w.name('X', k, w.LP) if h.symbolic else ecmodel.ref_mul(k, w.g, w.p, w.a)[0]
    if h.symbolic:
        h.fact(x < w.p)
    r = h.run(lambda: x % w.n)
    i = w.inverse(k, w.n) if h.symbolic else pow(k, -1, w.n)
    st, sig = h.call(key.sign, e, k)
    if st == 'ok':
        h.check(sig.r == r, 'r is the x coordinate of the nonce point modulo the order')
        want = h.run(lambda: i * (e + d * r))
        h.check(w.nf(sig.s) == w.nf(want) if h.symbolic else sig.s == want % w.n, 's is (e + d r) / k')
        h.check(h.all(sig.r >= 1, sig.r < w.n, sig.s >= 1, sig.s < w.n), 'both in range')
    else:
        h.check(isinstance(sig, RuntimeError), 'only unlucky nonces are refused')
        if not h.symbolic:
            h.check(r == 0 or i * (e + d * r) % w.n == 0, 'only unlucky nonces are refused')


# ---------------------------------------------------------------- small curves, everything real

def toy_world(h, toy):
    from nbc.util.ecdsa import ecdsa, ellipticcurve as E
    p, a, b, g, n = TOYS[toy]
    c = h.run(E.CurveFp, p, a, b)
    return ecdsa, E, c, h.run(E.Point, c, g[0], g[1], n), p, a, g, n


def toy_sign(h, toy, d):
    ecdsa, E, c, G, p, a, g, n = toy_world(h, toy)
    Q = ecmodel.ref_mul(d, g, p, a)
    pub = h.run(ecdsa.Public_key, G, h.run(E.Point, c, Q[0], Q[1]))
    priv = h.run(ecdsa.Private_key, pub, d)
    k = h.choice('k', range(1, n))
    e = h.int('e', 0, 2 * n)
    r = ecmodel.ref_mul(k, g, p, a)[0] % n
    s = h.run(lambda: (e + d * r) * pow(k, -1, n) % n)
    st, sig = h.call(priv.sign, e, k)
    bad = True if r == 0 else s == 0
    h.check(h.implies(bad, st != 'ok') if st == 'ok' else bad, 'a signature unless the nonce is unlucky')
    if st != 'ok':
        h.check(isinstance(sig, RuntimeError), 'only unlucky nonces are refused')
        return
    h.check(h.all(sig.r == r, sig.s == s), 'the formula')
    for v in range(1, n):
        if sig.s == v:
            break
    st, ok = h.call(pub.verifies, e, ecdsa.Signature(r, v))
    h.check(st == 'ok' and ok, 'the signature verifies')


def toy_verify(h, toy, d):
    ecdsa, E, c, G, p, a, g, n = toy_world(h, toy)
    Q = ecmodel.ref_mul(d, g, p, a)
    pub = h.run(ecdsa.Public_key, G, h.run(E.Point, c, Q[0], Q[1]))
    s = h.choice('s', [-1, 0] + list(range(1, n)) + [n, n + 1])
    r = h.int('r', -1, n + 1)
    e = h.int('e', 0, n + 2)
    st, ok = h.call(pub.verifies, e, ecdsa.Signature(r, s))
    h.check(st == 'ok', 'verification answers')
    if st != 'ok':
        return
    w = pow(s, -1, n) if s % n else 0
    log = h.run(lambda: (e + r * d) * w % n)
    inr = h.all(r >= 1, r < n) if 1 <= s < n else False
    xs = [ecmodel.ref_mul(v, g, p, a)[0] % n for v in range(1, n)]
    want = h.all(inr, h.any(*[h.all(log == v, r == xs[v - 1]) for v in range(1, n)]))
    h.check(want if ok else h.not_(want), 'exactly the valid pairs')


# ---------------------------------------------------------------- the message level

def contract(h, w, nonce=None):
    """signing and verifying numbers as arbitrary functions that agree with each other"""
    from nbc.util.ecdsa import ecdsa, util
    w.signed, w.asked = [], []
    if not h.symbolic:
        return
    k = nonce() if nonce else h.scalar('k', ecmodel.N)
    if not nonce:
        h.replace(util.randrange, lambda order, entropy=None: k)

    def sign(self, e, nonce):
        h.check(nonce == k, 'the nonce')
        w.signed.append((self, e))
        return ecdsa.Signature(w.r, w.s)

    def verifies(self, e, sig):
        b = h.cells(h.uf('valid', 1, b''))[0]
        h.fact(b <= 1)
        w.asked.append((self, e, sig, b == 1))
        return b == 1
    h.only_symbolic_stub(ecdsa.Private_key, 'sign', sign)
    h.only_symbolic_stub(ecdsa.Public_key, 'verifies', verifies)


class Box(object):
    pass


def digest(h, data):
    return h.be(h.sha('sha256', h.sha('sha256', data)))


def sign(h, n):
    from nbc.util import ecc
    from nbc.util.ecdsa import der
    ec, w = ecmodel.EC(h), Box()
    d = h.scalar('d', ecmodel.N)
    if h.symbolic:
        w.r, w.s = h.int('r', 256 ** 30, ecmodel.N - 1), h.int('s', 256 ** 30, ecmodel.N - 1)
    contract(h, w)
    x, y = ec.xy(d)
    data = h.noise('data', n)
    st, sig = h.call(ecc.sign, data, h.to_be(d, 32))
    h.check(st == 'ok', 'every key signs')
    if st != 'ok':
        return
    st, got = h.call(der.remove_sequence, sig)
    h.check(st == 'ok' and h.eq(got[1], b''), 'one DER sequence')
    if st != 'ok':
        return
    r, rest = h.run(der.remove_integer, got[0])
    s, rest = h.run(der.remove_integer, rest)
    h.check(h.eq(rest, b''), 'two integers')
    e = digest(h, data)
    if h.symbolic:
        h.check(len(w.signed) == 1 and h.all(r == w.r, s == w.s), 'the signature made')
        key, number = w.signed[0]
        h.check(h.all(key.secret_multiplier == d, number == e), 'of the double hash with the private key')
        h.check(h.eq(h.to_be(key.public_key.point.x(), 32), h.to_be(x, 32)), 'of its public key')
    else:
        h.check(ref_valid((x, y), e, r, s, (ecmodel.GX, ecmodel.GY), ecmodel.N, ecmodel.P, 0), 'it is valid under the public key')
    pub = h.concat(b'\4', h.to_be(x, 32), h.to_be(y, 32))
    st, ok = h.call(ecc.verify, data, pub, sig)
    h.check(st == 'ok', 'verification answers')
    if not h.symbolic:
        h.check(ok is True, 'it verifies')


def sign_bad(h, n):
    """keys out of range are refused"""
    from nbc.util import ecc
    ec, w = ecmodel.EC(h), Box()
    w.r = w.s = 1
    contract(h, w)
    kb = h.bytes('key', n)
    v = h.be(kb) if n else 0
    if n == 32:
        h.assume(h.any(v == 0, v >= ecmodel.N))
    st, sig = h.call(ecc.sign, h.noise('data', 3), kb)
    h.check(st != 'ok', 'no signature with an invalid key')


def int_der(h, name, nbytes, pad):
    """an integer of the signature: its value and encoding; pad: leading zero bytes"""
    b = h.bytes(name, nbytes)
    body = h.concat(b'\0' * pad, b)
    return h.be(b), h.concat(bytes([2, nbytes + pad]), body)


def key_bytes(h, ec, form, d):
    x, y = ec.xy(d)
    if form == 'full':
        return h.concat(b'\4', h.to_be(x, 32), h.to_be(y, 32))
    return h.concat(h.to_be(2 + h.run(lambda: y % 2), 1), h.to_be(x, 32))


def outcome(h, w, d, xy, e, r, s, st, ok, label):
    h.check(st == 'ok', label + ': verification answers')
    if st != 'ok':
        return
    if h.symbolic:
        if w.asked:
            key, number, sig, want = w.asked[0]
            h.check(h.all(number == e, sig.r == r, sig.s == s), label + ': asked about this signature of the double hash')
            px, py = key.point.x(), key.point.y()
            h.check(h.eq(h.concat(h.to_be(px, 32), h.to_be(py, 32)), h.concat(h.to_be(xy[0], 32), h.to_be(xy[1], 32))), label + ': under this key')
            h.check(h.all(h.implies(want, ok), h.implies(ok, want)), label + ': the answer')
        else:
            h.check(h.not_(ok), label + ': refused')
            h.check(h.any(r < 1, r >= ecmodel.N, s < 1, s >= ecmodel.N), label + ': refused without cause')
    else:
        h.check(ok is ref_valid(xy, e, r, s, (ecmodel.GX, ecmodel.GY), ecmodel.N, ecmodel.P, 0), label + ': the answer')


def verify(h, form, rn, sn, pad, tail):
    from nbc.util import ecc
    ec, w = ecmodel.EC(h), Box()
    contract(h, w)
    d = h.scalar('d', ecmodel.N)
    pub = key_bytes(h, ec, form, d)
    r, rb = int_der(h, 'r', rn, pad)
    s, sb = int_der(h, 's', sn, pad)
    data = h.noise('data', 5)
    body = h.concat(rb, sb)
    sig = h.concat(bytes([0x30, h.len(body)]), body, b'\0' * tail)
    e = digest(h, data)
    xy = ec.xy(d)
    st, ok = h.call(ecc.verify, data, pub, sig)
    outcome(h, w, d, xy, e, r, s, st, ok, 'signature')


def mangled(h, which, where, extra):
    """a valid signature one of whose numbers got more bytes: another number, so refused"""
    from nbc.util import ecc
    from nbc.util.ecdsa import ecdsa
    ec = ecmodel.EC(h)
    d, k = h.scalar('d', ecmodel.N), h.scalar('k', ecmodel.N)
    data = h.noise('data', 5)
    e = digest(h, data)
    if h.symbolic:
        rb, sb = h.uf('r0', 32, b''), h.uf('s0', 32, b'')
        r0, s0 = h.be(rb), h.be(sb)
        h.fact(h.all(r0 >= 1, r0 < ecmodel.N, s0 >= 1, s0 < ecmodel.N))
        h.only_symbolic_stub(ecdsa.Public_key, 'verifies', lambda self, number, sig: h.all(number == e, sig.r == r0, sig.s == s0))
    else:
        r0 = ecmodel.ref_mul(k)[0] % ecmodel.N
        s0 = (e + d * r0) * pow(k, -1, ecmodel.N) % ecmodel.N
        rb, sb = h.to_be(r0, 32), h.to_be(s0, 32)
    more = h.bytes('more', extra)
    if where == 'front':
        h.assume(h.any(*[c != 0 for c in h.cells(more)]))
    grown = lambda b: h.concat(more, b) if where == 'front' else h.concat(b, more)
    if which == 'r':
        rb = grown(rb)
    elif which == 's':
        sb = grown(sb)
    num = lambda b: h.concat(bytes([2, h.len(b)]), b)
    body = h.concat(num(rb), num(sb))
    n = h.len(body)
    sig = h.concat(bytes([0x30, n]) if n < 128 else bytes([0x30, 0x81, n]), body)
    st, ok = h.call(ecc.verify, data, key_bytes(h, ec, 'full', d), sig)
    h.check(st == 'ok', 'verification answers')
    if st == 'ok':
        if which:
            h.check(h.not_(ok), 'another number is not accepted')
        else:
            h.check(ok, 'the valid signature is')


def garbage(h, n, head):
    """arbitrary signature bytes are never an error"""
    from nbc.util import ecc
    ec, w = ecmodel.EC(h), Box()
    contract(h, w)
    d = h.scalar('d', ecmodel.N)
    pub = key_bytes(h, ec, 'full', d)
    sig = h.concat(head, h.bytes('sig', n))
    st, ok = h.call(ecc.verify, h.noise('data', 2), pub, sig)
    h.check(st == 'ok', 'malformed signatures are answered')
    if st != 'ok':
        return
    if h.symbolic and w.asked:
        h.check(h.implies(ok, w.asked[-1][3]), 'true only for a valid signature')
    else:
        h.check(h.not_(ok), 'false')


def bad_key(h, n, head):
    """arbitrary public key bytes are never an error"""
    from nbc.util import ecc
    ec, w = ecmodel.EC(h), Box()
    contract(h, w)
    pub = h.concat(head, h.bytes('pub', n - len(head)))
    sig = h.concat(b'\x30\x06\x02\x01', h.bytes('r', 1), b'\x02\x01', h.bytes('s', 1))
    st, ok = h.call(ecc.verify, h.noise('data', 2), pub, sig)
    h.check(st == 'ok', 'malformed public keys are answered')
    if st == 'ok':
        if h.symbolic and w.asked:
            h.check(h.implies(ok, w.asked[-1][3]), 'true only for a valid signature')
        else:
            h.check(h.not_(ok), 'false')


def lib_keys(h, name, enc, n):
    """the library's own key objects, on every curve"""
    from nbc.util.ecdsa import curves, keys, util
    C = getattr(curves, name)
    N, L = C.order, (C.order.bit_length() + 7) // 8
    ec, w = ecmodel.EC(h, C), Box()
    d = h.scalar('d', N)
    k = h.int('k', 1, N - 1)
    if h.symbolic:
        w.r, w.s = h.int('r', 256 ** (L - 2), N - 1), h.int('s', 256 ** (L - 2), N - 1)
    contract(h, w, lambda: k)
    sk = h.run(keys.SigningKey.from_secret_exponent, d, C)
    dg = h.bytes('digest', n)
    e = h.be(dg) if n else 0
    st, sig = h.call(sk.sign_digest, dg, sigencode=getattr(util, 'sigencode_' + enc), k=k)
    if n > L:
        h.check(st == 'raise' and isinstance(sig, keys.BadDigestError), 'a digest longer than the order is refused')
        st, ok = h.call(sk.get_verifying_key().verify_digest, b'\1' * (2 * L), dg)
        h.check(st == 'raise' and isinstance(ok, keys.BadDigestError), 'a digest longer than the order is refused')
        return
    h.check(st == 'ok' or not h.symbolic and isinstance(sig, RuntimeError), 'it signs')
    if st != 'ok':
        return
    st, rs = h.call(getattr(util, 'sigdecode_' + enc), sig, N)
    h.check(st == 'ok', 'the signature decodes')
    vk = h.run(sk.get_verifying_key)
    if h.symbolic:
        h.check(len(w.signed) == 1 and h.all(rs[0] == w.r, rs[1] == w.s, w.signed[0][1] == e, w.signed[0][0].secret_multiplier == d), 'the signature of this digest with this key')
    st, ok = h.call(vk.verify_digest, sig, dg, sigdecode=getattr(util, 'sigdecode_' + enc))
    if h.symbolic:
        h.check(len(w.asked) == 1 and h.all(w.asked[0][1] == e, w.asked[0][2].r == w.r, w.asked[0][2].s == w.s), 'asked about this signature of this digest')
        px, py = w.asked[0][0].point.x(), w.asked[0][0].point.y()
        x, y = ec.xy(d)
        h.check(h.all(px == x, py == y), 'under this key')
        want = w.asked[0][3]
        h.check(want if st == 'ok' else h.not_(want), 'accepted exactly when valid')
        if st == 'ok':
            h.check(ok is True, 'accepted exactly when valid')
        else:
            h.check(isinstance(ok, keys.BadSignatureError), 'refused with the documented error')
    else:
        h.check(st == 'ok' and ok is True, 'the signature verifies')
        h.check(ref_valid(ec.xy(d), e, rs[0], rs[1], ec.G, N, ec.P, ec.A), 'it is valid')
        st, ok = h.call(vk.verify_digest, getattr(util, 'sigencode_' + enc)(rs[0], rs[1] % (N - 1) + 1, N), dg, sigdecode=getattr(util, 'sigdecode_' + enc))
        h.check(st == 'raise' and isinstance(ok, keys.BadSignatureError), 'another signature does not')


def instances(tier):
    deep = tier == 'thorough'
    out = []
    o = dict(branch_ms=1500)
    for c in CURVES:
        for part in ('inside', 'below', 'above', 'sabove', 'sbelow'):
            out.append(Inst('equation[%s,%s]' % (c, part), equation, dict(name=c, part=part), cost=2, **o))
        out.append(Inst('formula[%s]' % c, formula, dict(name=c), cost=2, **o))
    for t, (p, a, b, g, n) in TOYS.items():
        if not deep and t in ('23/29',):
            continue
        for d in range(1, n) if deep else (1, 2, n // 2 + 1, n - 1):
            out.append(Inst('toy_sign[%s,%d]' % (t, d), toy_sign, dict(toy=t, d=d), cost=10, **o))
            if deep or d == n - 1 and n < 19 or d == 2 and n < 13:
                out.append(Inst('toy_verify[%s,%d]' % (t, d), toy_verify, dict(toy=t, d=d), cost=20, **o))
    for n in (0, 1, 40):
        out.append(Inst('sign[%d]' % n, sign, dict(n=n), cost=4, **o))
    for c in CURVES:
        for enc in ('string', 'strings', 'der'):
            for n in ((0, 20, 24, 28, 32, 48, 64, 66, 67) if deep else (24, 67)):
                out.append(Inst('lib_keys[%s,%s,%d]' % (c, enc, n), lib_keys, dict(name=c, enc=enc, n=n), cost=3, **o))
    for n in (0, 31, 32, 33):
        out.append(Inst('sign_bad[%d]' % n, sign_bad, dict(n=n), cost=2, **o))
    for form in ('full', 'compressed'):
        for rn, sn, pad, tail in ((32, 32, 0, 0), (32, 32, 1, 0), (33, 32, 0, 0), (32, 33, 0, 1), (31, 32, 0, 2), (1, 1, 0, 0), (20, 3, 2, 0), (48, 48, 0, 0)):
            out.append(Inst('verify[%s,%d,%d,%d,%d]' % (form, rn, sn, pad, tail), verify, dict(form=form, rn=rn, sn=sn, pad=pad, tail=tail), cost=3, **o))
    out.append(Inst('mangled[none]', mangled, dict(which='', where='', extra=0), cost=3, **o))
    for which in 'rs':
        for where in ('front', 'back'):
            for extra in (1, 2, 8) if not deep else (1, 2, 3, 4, 8, 16, 32, 40):
                out.append(Inst('mangled[%s,%s,%d]' % (which, where, extra), mangled, dict(which=which, where=where, extra=extra), cost=3, **o))
    for n in range(0, 9 if not deep else 11):
        out.append(Inst('garbage[%d]' % n, garbage, dict(n=n, head=b''), cost=2 + n, **o))
    for head in (b'\x30\x08', b'\x30\x82', b'\x30\x81\x08', b'\x30\x08\x02\x02', b'\x30\x09\x02\x01\x05', b'\x30\x06\x02\x01\x05\x02', b'\x30\x00'):
        for n in ((3, 6) if not deep else (1, 3, 5, 7)):
            out.append(Inst('garbage[%s,%d]' % (head.hex(), n), garbage, dict(n=n, head=head), cost=2 + n, **o))
    for n, head in ((0, b''), (1, b''), (2, b''), (32, b''), (33, b'\2'), (33, b'\3'), (33, b'\4'), (33, b''), (34, b''), (64, b''), (65, b'\4'), (65, b'\2'), (65, b''), (66, b'')):
        out.append(Inst('bad_key[%d,%s]' % (n, head.hex()), bad_key, dict(n=n, head=head), cost=3, **o))
    return out
