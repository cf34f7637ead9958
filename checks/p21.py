"""Curve point arithmetic is the group law."""
from symx.inst import Inst
import ecmodel

BOUNDS = ('single additions and doublings: all points of the six curves, coordinates symbolic, results compared as polynomials modulo the field prime; '
          'all pairs of points with coordinates next to 0 or to the field prime; all pairs of points of small curves (with points of order two) and all multiples up to twice the order; multiplication: every point (as an abstract group element), '
          'scalars of up to 8 bits (thorough: 11) and 256-bit scalars with windows of 6 (thorough: 7) arbitrary bits at every alignment in several backgrounds; '
          'membership: all coordinates on small curves')
OUTSIDE = 'other scalars of more than 8 bits; coordinates outside [0, p)'
ASSUMPTIONS = ['inverse_mod gives the modular inverse (P22)', 'on the six curves: equal points have equal logarithms, equal x only for a point and its opposite']

CURVES = ['NIST192p', 'NIST224p', 'NIST256p', 'NIST384p', 'NIST521p', 'SECP256k1']
# p, a, b of small curves
TOYS = {'23,1,1': (23, 1, 1), '13,0,6': (13, 0, 6), '11,1,6': (11, 1, 6), '17,2,2': (17, 2, 2), '7,3,0': (7, 3, 0), '5,0,1': (5, 0, 1), '5,1,1': (5, 1, 1), '7,2,1': (7, 2, 1)}


def curve_of(name):
    from nbc.util.ecdsa import curves
    return getattr(curves, name)


class World(object):
    """points of a production curve as (logarithm, coordinates), nothing replaced but membership and inverses"""

    def __init__(self, h, name):
        from nbc.util.ecdsa import ellipticcurve as E, numbertheory as NT
        self.h, self.E = h, E
        C = curve_of(name)
        self.curve, self.p, self.n = C.curve, C.curve.p(), C.order
        self.a = self.curve.a()
        self.G = (C.generator.x(), C.generator.y())
        self.pts, self.invs = [], []
        if h.symbolic:
            old = E.CurveFp.contains_point
            h.only_symbolic_stub(E.CurveFp, 'contains_point', lambda c, x, y: True if c is self.curve else old(c, x, y))
            h.replace(NT.inverse_mod, self.inverse)

    def inverse(self, a, m):
        h = self.h
        if not h.is_sym(a) or m != self.p:
            return pow(a, -1, m)
        if h.run(lambda: a % m) == 0:
            raise AssertionError('no inverse of zero')
        nf, atoms = h.poly(a, m)
        lead = max(nf, key=lambda k: (len(k), k))
        c = pow(nf[lead], -1, m)
        monic = {k: v * c % m for k, v in nf.items()}
        for other, i in self.invs:
            if other == monic:
                break
        else:
            i = h.be(h.uf('inverse %d' % len(self.invs), (m.bit_length() + 7) // 8, b''))
            h.fact(h.all(i >= 1, i < m))
            self.invs.append((monic, i))
        return h.run(lambda: (i * c) % m)

    def point(self, name):
        h = self.h
        k = h.scalar(name, self.n)
        if not h.symbolic:
            x, y = ecmodel.ref_mul(k, self.G, self.p, self.a)
        else:
            L = (self.p.bit_length() + 7) // 8
            kb = h.to_be(k, (self.n.bit_length() + 7) // 8)
            x, y = h.be(h.uf('X', L, kb)), h.be(h.uf('Y', L, kb))
            h.fact(h.all(x < self.p, y > 0, y < self.p))
            for l, x2, y2 in self.pts:
                same, opp = k == l, k + l == self.n
                h.fact(h.all(h.implies(same, h.all(x == x2, y == y2)), h.implies(opp, h.all(x == x2, y + y2 == self.p)), h.implies(x == x2, h.any(same, opp))))
                h.fact(h.implies(h.all(x == x2, y == y2), same))
                h.fact(h.implies(h.all(x == x2, y + y2 == self.p), opp))
        self.pts.append((k, x, y))
        return k, x, y, h.run(self.E.Point, self.curve, x, y)

    def slope(self, num, den):
        h = self.h
        i = self.inverse(den, self.p)
        return h.run(lambda: num * i)

    def check(self, r, want, label):
        h = self.h
        if r is self.E.INFINITY:
            h.fail(label + ': not infinity')
            return
        for got, w, c in ((h.run(r.x), want[0], 'x'), (h.run(r.y), want[1], 'y')):
            h.check(h.all(got >= 0, got < self.p), label + ': reduced')
            h.check(h.poly(got, self.p)[0] == h.poly(w, self.p)[0] if h.symbolic else got == w % self.p, label + ': ' + c)
        h.check(h.run(r.curve) == self.curve, label + ': on the same curve')

    def chord(self, x1, y1, x2, y2):
        l = self.slope(y2 - y1, x2 - x1)
        x3 = self.h.run(lambda: l * l - x1 - x2)
        return x3, self.h.run(lambda: l * (x1 - x3) - y1)

    def tangent(self, x, y):
        l = self.slope(self.h.run(lambda: 3 * x * x + self.a), 2 * y)
        x3 = self.h.run(lambda: l * l - 2 * x)
        return x3, self.h.run(lambda: l * (x - x3) - y)


def add(h, name):
    w = World(h, name)
    k1, x1, y1, A = w.point('k1')
    k2, x2, y2, B = w.point('k2')
    st, r = h.call(lambda: h.run(type(A).__add__, A, B))
    h.check(st == 'ok', 'addition never fails')
    if st != 'ok':
        return
    if k1 + k2 == w.n:
        h.check(r is w.E.INFINITY, 'a point and its opposite make infinity')
    elif k1 == k2:
        w.check(r, w.tangent(x1, y1), 'sum of equal points')
    else:
        w.check(r, w.chord(x1, y1, x2, y2), 'sum')


def opposite(h, name):
    """adding the reflected point"""
    w = World(h, name)
    k, x, y, A = w.point('k1')
    B = h.run(w.E.Point, w.curve, x, w.p - y)
    h.check(h.run(type(A).__add__, A, B) is w.E.INFINITY and h.run(type(A).__add__, B, A) is w.E.INFINITY, 'infinity')
    h.check(not h.run(type(A).__eq__, A, B), 'they differ')


def double(h, name):
    w = World(h, name)
    k, x, y, A = w.point('k1')
    r = h.run(A.double)
    w.check(r, w.tangent(x, y), 'double')
    r = h.run(type(A).__add__, A, A)
    w.check(r, w.tangent(x, y), 'sum with itself')


def edges(h, name):
    """the points whose coordinates are next to zero or to the field prime, if the curve has them"""
    from nbc.util.ecdsa import ellipticcurve as E
    C = curve_of(name)
    c, p, a, b = C.curve, C.curve.p(), C.curve.a(), C.curve.b()
    pts = [(C.generator.x(), C.generator.y())]
    for x in (0, 1, 2, 3, p - 1, p - 2, p - 3, (p - 1) // 2, (p + 1) // 2):
        v = (x ** 3 + a * x + b) % p
        y = pow(v, (p + 1) // 4, p) if p % 4 == 3 else 0
        if y * y % p == v and y:
            pts += [(x, y), (x, p - y)]
    s, t = h.choice('first', pts), h.choice('second', pts)
    A, B = h.run(E.Point, c, *s), h.run(E.Point, c, *t)
    show = lambda r: None if r is E.INFINITY else (r.x(), r.y())
    h.check(show(h.run(E.Point.__add__, A, B)) == ecmodel._add(s, t, p, a), 'sum')
    h.check(show(h.run(A.double)) == ecmodel._add(s, s, p, a), 'double')


def identity(h, name):
    w = World(h, name)
    k, x, y, A = w.point('k1')
    O = w.E.INFINITY
    P = type(A)
    for r in (h.run(P.__add__, A, O), h.run(P.__add__, O, A)):
        w.check(r, (x, y), 'plus infinity')
    h.check(h.run(P.__add__, O, O) is O and h.run(O.double) is O, 'infinity stays')
    h.check(h.run(P.__mul__, A, 0) is O and h.run(P.__mul__, O, 5) is O and h.run(P.__rmul__, O, h.int('e', 1, 9)) is O, 'nothing times anything')
    h.check(h.run(P.__eq__, A, A) and h.run(P.__eq__, O, O) and not h.run(P.__eq__, A, O) and not h.run(P.__eq__, O, A), 'equality')
    w.check(h.run(P.__mul__, A, 1), (x, y), 'once')


# ---------------------------------------------------------------- small curves, the real code throughout

def toy_points(p, a, b):
    return [None] + [(x, y) for x in range(p) for y in range(p) if (y * y - x ** 3 - a * x - b) % p == 0]


def toy_pairs(h, toy):
    from nbc.util.ecdsa import ellipticcurve as E
    p, a, b = TOYS[toy]
    pts = toy_points(p, a, b)
    c = h.run(E.CurveFp, p, a, b)
    s, t = h.choice('first', pts), h.choice('second', pts)
    mk = lambda q: E.INFINITY if q is None else h.run(E.Point, c, q[0], q[1])
    st, r = h.call(E.Point.__add__, mk(s), mk(t))
    h.check(st == 'ok', 'addition never fails')
    if st == 'ok':
        h.check((None if r is E.INFINITY else (r.x(), r.y())) == ecmodel._add(s, t, p, a), 'the group law')


def toy_multiples(h, toy):
    from nbc.util.ecdsa import ellipticcurve as E
    p, a, b = TOYS[toy]
    pts = toy_points(p, a, b)
    c = h.run(E.CurveFp, p, a, b)
    s = h.choice('point', pts)
    e = h.int('e', 0, 2 * len(pts))
    P = E.INFINITY if s is None else h.run(E.Point, c, s[0], s[1])
    st, r = h.call(E.Point.__mul__, P, e)
    h.check(st == 'ok', 'multiplication never fails')
    if st == 'ok':
        got = None if r is E.INFINITY else (r.x(), r.y())
        want = None
        for i in range(2 * len(pts) + 1):
            h.check(h.implies(e == i, got == want), 'repeated addition')
            want = ecmodel._add(want, s, p, a)
    h.check(h.run(E.Point.__mul__, P, len(pts)) is E.INFINITY, 'the number of points times a point')


def member(h, toy):
    """accepted exactly on the curve"""
    from nbc.util.ecdsa import ellipticcurve as E
    p, a, b = TOYS[toy]
    c = h.run(E.CurveFp, p, a, b)
    x = h.choice('x', range(p))
    y = h.int('y', 0, p - 1)
    on = h.any(*[y == v for v in range(p) if (v * v - x ** 3 - a * x - b) % p == 0])
    r = h.run(c.contains_point, x, y)
    h.check(on if r else h.not_(on), 'on the curve exactly when the equation holds')
    st, q = h.call(E.Point, c, x, y)
    h.check(on if st == 'ok' else h.not_(on), 'a point is made exactly on the curve')
    if st == 'ok':
        h.check(h.all(q.x() == x, q.y() == y), 'with its coordinates')


# ---------------------------------------------------------------- multiplication over an abstract group

class Logs(object):
    """points are logarithms; adding, doubling and negating act on them (checked above); multiplication is the real code"""

    def __init__(self, h, name):
        from nbc.util.ecdsa import ellipticcurve as E
        self.h, self.E = h, E
        C = curve_of(name)
        self.curve, self.p, self.n = C.curve, C.curve.p(), C.order
        self.G = (C.generator.x(), C.generator.y())
        self.k = h.scalar('k', self.n)
        P, m = E.Point, self
        if not h.symbolic:
            return
        self.x, self.y = h.int('x', 0, self.p - 1), h.int('y', 1, self.p - 1)

        def make(c):
            if c % m.n == 0:
                return E.INFINITY
            r = P.__new__(P)
            r._Point__curve, r._Point__order, r._Point__x, r._Point__y = m.curve, None, 0, 0
            r.coef = c
            return r

        def init(self, curve, x, y, order=None):
            self._Point__curve, self._Point__x, self._Point__y, self._Point__order = curve, x, y, order
            if not (x is m.x or h.same_known(x, m.x)):
                raise AssertionError('point not on curve')
            if h.surely(y == m.y):
                self.coef = 1
            elif h.surely(h.any(y == m.p - m.y, y == -m.y)):
                self.coef = -1
            else:
                raise AssertionError('point not on curve')
        coef = lambda p: 0 if p is E.INFINITY else p.coef
        h.only_symbolic_stub(P, '__init__', init)
        h.only_symbolic_stub(P, '__add__', lambda a, b: make(coef(a) + coef(b)))
        h.only_symbolic_stub(P, 'double', lambda a: make(2 * coef(a)))
        h.only_symbolic_stub(P, '__eq__', lambda a, b: (coef(a) - coef(b)) % m.n == 0)

    def point(self, order=None):
        h = self.h
        if h.symbolic:
            return h.run(self.E.Point, self.curve, self.x, self.y, order)
        x, y = ecmodel.ref_mul(self.k, self.G, self.p, self.curve.a())
        return self.E.Point(self.curve, x, y, order)

    def check(self, r, e, lo, hi, label):
        """r is e times the point, with lo <= e <= hi; the multiplier reached on this path is known"""
        h = self.h
        if h.symbolic:
            c = 0 if r is self.E.INFINITY else r.coef
            first = lo + (c - lo) % self.n
            h.check(h.any(False, *[e == v for v in range(first, hi + 1, self.n)]), label)
        else:
            want = ecmodel.ref_mul(e * self.k % self.n, self.G, self.p, self.curve.a())
            h.check((None if r is self.E.INFINITY else (r.x(), r.y())) == want, label)


def settle(h, e, lo, hi):
    """a case split on the value, before the code sees it: its bits then need no queries"""
    for v in range(lo, hi + 1):
        if e == v:
            return v
    h.assume(False)


def multiply(h, name, lo, hi, order, left=False, times=0):
    w = Logs(h, name)
    lo, hi = lo + times * w.n, hi + times * w.n
    e = h.int('e', lo, hi)
    if h.symbolic and times:
        e = settle(h, e, lo, hi)
    P = w.point(w.n if order else None)
    st, r = h.call(w.E.Point.__rmul__ if left else w.E.Point.__mul__, P, e)
    h.check(st == 'ok', 'multiplication never fails')
    if st == 'ok':
        w.check(r, e, lo, hi, 'repeated addition')


BACKGROUNDS = {'zeros': 1 << 255, 'ones': (1 << 256) - 1, 'alternating': int('a' * 64, 16), 'mixed': 0xe9873d79c6d87dc0fb6a5778633389f4453213303da61f20bd67fc233aa33262}


def window(h, name, background, at, bits):
    """a 256-bit scalar with some of its bits arbitrary"""
    w = Logs(h, name)
    base = BACKGROUNDS[background] & ~(((1 << bits) - 1) << at)
    t = h.int('t', 0, (1 << bits) - 1)
    if h.symbolic:
        t = settle(h, t, 0, (1 << bits) - 1)
    e = h.run(lambda: base + t * (1 << at))
    P = w.point(None)
    st, r = h.call(w.E.Point.__mul__, P, e)
    h.check(st == 'ok', 'multiplication never fails')
    if st == 'ok':
        w.check(r, e, base, base + ((1 << bits) - 1 << at), 'repeated addition')


def instances(tier):
    deep = tier == 'thorough'
    out = []
    o = dict(branch_ms=1500)
    for c in CURVES:
        for f in (add, opposite, double, identity, edges):
            out.append(Inst('%s[%s]' % (f.__name__, c), f, dict(name=c), **o))
    for t in TOYS:
        if deep or t in ('13,0,6', '7,3,0', '5,0,1', '11,1,6', '5,1,1', '7,2,1'):
            out.append(Inst('toy_pairs[%s]' % t, toy_pairs, dict(toy=t), cost=5, **o))
            out.append(Inst('toy_multiples[%s]' % t, toy_multiples, dict(toy=t), cost=5, **o))
        out.append(Inst('member[%s]' % t, member, dict(toy=t), **o))
    top = 2048 if deep else 256
    for lo in range(0, top, 64):
        out.append(Inst('multiply[%d]' % lo, multiply, dict(name='SECP256k1', lo=lo, hi=lo + 63, order=False), cost=5, **o))
    for c in CURVES:
        for times, lo, hi in ((0, 0, 9), (1, -3, 6), (2, -2, 3)):
            out.append(Inst('multiply[%s,%dn]' % (c, times), multiply, dict(name=c, lo=lo, hi=hi, order=True, left=True, times=times), cost=3, **o))
        out.append(Inst('multiply[%s,n]' % c, multiply, dict(name=c, lo=-4, hi=4, order=False, times=1), cost=3, **o))
    bits = 7 if deep else 6
    for b in BACKGROUNDS:
        for at in (range(0, 250, 7) if deep else (0, 1, 30, 63, 127, 251)):
            out.append(Inst('window[%s,%d]' % (b, at), window, dict(name='SECP256k1', background=b, at=at, bits=min(bits, 256 - at)), cost=6, **o))
    return out
