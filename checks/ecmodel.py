"""secp256k1 as an abstract group of prime order, for the code built on top of it.

Symbolic runs: a point is its discrete logarithm (an integer modulo n) and its coordinates are
uninterpreted functions of that logarithm, with the facts of the curve as axioms between every two
points that occur: equal coordinates <=> equal logarithms, negation keeps x and negates y, equal x
only for a point and its negative.  The Point class, CurveFp.contains_point and
square_root_mod_prime run as these contracts (P21 and P22 check the real ones).
Replays: the real code with the real curve; the reference below is a second implementation."""

P = 2 ** 256 - 2 ** 32 - 977
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
GX = 0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798
GY = 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8


def _add(a, b, P=P, A=0):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        l = (3 * a[0] * a[0] + A) * pow(2 * a[1], -1, P) % P
    else:
        l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (l * l - a[0] - b[0]) % P
    return x, (l * (a[0] - x) - a[1]) % P


def ref_mul(k, pt=(GX, GY), P=P, A=0):
    r = None
    while k:
        if k & 1:
            r = _add(r, pt, P, A)
        pt = _add(pt, pt, P, A)
        k >>= 1
    return r


def ref_lift(x):
    """y with y^2 = x^3 + 7, or None"""
    a = (pow(x, 3, P) + 7) % P
    y = pow(a, (P + 1) // 4, P)
    return y if y * y % P == a else None


class Concrete(object):
    def __init__(self, h, curve):
        self.h, self.C = h, curve
        self.P, self.N, self.A, self.B = curve.curve.p(), curve.order, curve.curve.a(), curve.curve.b()
        self.G = (curve.generator.x(), curve.generator.y())

    def xy(self, k):
        return ref_mul(k % self.N, self.G, self.P, self.A)

    def point(self, k):
        from nbc.util.ecdsa import ellipticcurve
        x, y = self.xy(k)
        return ellipticcurve.Point(self.C.curve, x, y)

    def on_curve(self, x, y):
        return 0 <= x < self.P and 0 <= y < self.P and (y * y - x ** 3 - self.A * x - self.B) % self.P == 0

    def lift(self, x):
        """(y, p-y) when x < p is the x coordinate of a point"""
        if x >= P:
            return None
        y = ref_lift(x)
        return None if y is None else (y, P - y)

    def mul(self, a, b):
        return a * b % self.N


class Symbolic(object):
    def __init__(self, h, curve):
        self.h = h
        self.C = curve
        P, N = self.P, self.N = curve.curve.p(), curve.order
        self.L, self.LN = (P.bit_length() + 7) // 8, (N.bit_length() + 7) // 8
        self.pts = []        # (log, x, y)
        self.off = []        # (x, y) known to be off the curve
        self.nox = []        # x known not to be an x coordinate
        self.xs = []         # candidate x values seen by the square root contract
        from nbc.util.ecdsa import ellipticcurve as E, numbertheory as NT
        self.E, self.NT = E, NT
        self.curve, self.G, self.INF = curve.curve, curve.generator, E.INFINITY
        self.G0 = (self.G.x(), self.G.y())
        m = self
        Pt = E.Point
        orig = {k: vars(Pt)[k] for k in ('x', 'y', 'curve', 'order', '__init__')}

        def init(self, curve, x, y, order=None):
            if curve is None:
                self._sx_log = 0
                self._sx_order = order
                return
            if curve is not m.curve:
                return orig['__init__'](self, curve, x, y, order)
            k = m.find(x, y)
            if k is None:
                raise AssertionError('point not on curve')
            self._sx_log, self._sx_order = k, order
            self._sx_raw = (x, y)

        def px(self):
            if self is m.INF or m.log(self) == 0:
                return None
            r = getattr(self, '_sx_raw', None)
            return r[0] if r else m.xy(m.log(self))[0]

        def py(self):
            if self is m.INF or m.log(self) == 0:
                return None
            r = getattr(self, '_sx_raw', None)
            return r[1] if r else m.xy(m.log(self))[1]

        def mul(self, e):
            k = m.log(self)
            h = m.h
            if not h.is_sym(e) and not h.is_sym(k):
                return m.mk(k * e % N)
            if not h.is_sym(e):
                e = e % N
                if e == 0:
                    return m.INF
            if m.opaque_mul:
                return m.mk(m.product(k, e))
            return m.mk(h.run(lambda: (k * e) % N))

        def add(self, o):
            return m.mk(m.h.run(lambda: (m.log(self) + m.log(o)) % N))

        def eq(self, o):
            return m.log(self) == m.log(o)

        def curve(self):
            return None if self is m.INF else m.curve if hasattr(self, '_sx_log') or self is m.G else orig['curve'](self)

        def order(self):
            return N if self is m.G else getattr(self, '_sx_order', None) if hasattr(self, '_sx_log') else orig['order'](self)
        for name, f in (('__init__', init), ('x', px), ('y', py), ('__mul__', mul), ('__rmul__', mul), ('__add__', add), ('__eq__', eq), ('curve', curve),
                        ('order', order), ('double', lambda self: m.mk(m.h.run(lambda: (m.log(self) * 2) % N)))):
            h.only_symbolic_stub(Pt, name, f)
        h.only_symbolic_stub(Pt, '__str__', lambda self: '(point)')
        old = E.CurveFp.contains_point

        def contains(self, x, y):
            if self is not m.curve:
                return old(self, x, y)
            return m.find(x, y) is not None
        h.only_symbolic_stub(E.CurveFp, 'contains_point', contains)
        oldsq = NT.square_root_mod_prime
        h.replace(oldsq, lambda a, p: m.sqrt(a) if not (isinstance(p, int) and p != P) else oldsq(a, p))

    # -------------------------------------------------- points
    def log(self, pt):
        if pt is self.INF:
            return 0
        if pt is self.G:
            return 1
        return pt._sx_log

    def mk(self, k):
        h = self.h
        if k == 0:
            return self.INF
        o = self.E.Point.__new__(self.E.Point)
        o._sx_log, o._sx_order = k, None
        return o

    point = None

    def xy(self, k):
        """coordinates of k*G for 1 <= k < n"""
        h = self.h
        for l, x, y in self.pts:
            if l is k or (h.is_sym(l) == h.is_sym(k) and not h.is_sym(k) and l == k) or (h.is_sym(l) and h.is_sym(k) and l.expr.eq(k.expr)):
                return x, y
        if not h.is_sym(k) and k == 1:
            x, y = self.G0
        else:
            kb = h.to_be(k, self.LN)
            x = h.be(h.uf('X', self.L, kb))
            y = h.be(h.uf('Y', self.L, kb))
            h.fact(h.all(x < self.P, y > 0, y < self.P))
        self.register(k, x, y)
        return x, y

    def register(self, k, x, y):
        h = self.h
        for l, x2, y2 in self.pts:
            same, opp = k == l, k + l == self.N
            h.fact(h.all(h.implies(same, h.all(x == x2, y == y2)), h.implies(opp, h.all(x == x2, y + y2 == self.P)),
                           h.implies(x == x2, h.any(same, opp))))
        for ox, oy in self.off:
            h.fact(h.not_(h.all(x == ox, y == oy)))
        for ox in self.nox:
            h.fact(h.not_(x == ox))
        self.pts.append((k, x, y))

    def find(self, x, y):
        """log of the point with these coordinates (unreduced allowed), or None; forks"""
        h = self.h
        if not h.is_sym(x) and not h.is_sym(y):
            x, y = x % self.P, y % self.P
        else:
            x, y = self.red(x), self.red(y)
        for l, x2, y2 in list(self.pts):
            if x is x2 and y is y2:
                return l
        for l, x2, y2 in list(self.pts):
            if h.same_known(x, x2) and h.same_known(y, y2):
                return l
            if h.same_known(x, x2) and h.same_known(y, self.P - y2):
                return self.N - l
        for l, x2, y2 in list(self.pts):
            if h.all(x == x2, y == y2):
                return l
        for ox, oy in self.off:
            if h.same_known(x, ox) and h.same_known(y, oy):
                return None
        key = (h.to_be(x, self.L), h.to_be(y, self.L))
        if h.all(self.bit('oncurve', *key) == 1, y > 0):
            k = h.be(h.uf('dlog', self.LN, *key))
            h.fact(h.all(k >= 1, k < self.N))
            self.register(k, x, y)
            return k
        for ox in self.nox:
            pass
        self.off.append((x, y))
        return None

    def bit(self, name, *key):
        c = self.h.cells(self.h.uf(name, 1, *key))[0]
        self.h.fact(c <= 1, about=c)
        return c

    def red(self, v):
        h = self.h
        if h.is_sym(v):
            if v < self.P:
                if v >= 0:
                    return v
            return h.run(lambda: v % self.P)
        return v % self.P

    # -------------------------------------------------- square roots
    def roots_of(self, a):
        """an x in play with x^3 + 7 = a modulo p, by polynomial normal form"""
        h = self.h
        nf, atoms = h.poly(a, self.P)
        if not any(nf_k for nf_k in nf):
            for x in self.xs + [q[1] for q in self.pts]:
                if not h.is_sym(x) and (x ** 3 + 7 - a) % self.P == 0:
                    return [x]
            return []
        if nf.get((), 0) == 7 and len(nf) == 2:
            for k, c in nf.items():
                if k and c == 1 and len(k) == 3 and len(set(k)) == 1:
                    return [atoms[k[0]]]
        for x in self.xs + [q[1] for q in self.pts]:
            if h.is_sym(x) and h.poly(x * x * x + 7, self.P)[0] == nf:
                return [x]
        return []

    def know_x(self, x):
        if not any(x is z for z in self.xs):
            self.xs.append(x)

    def sqrt(self, a):
        h = self.h
        for x in self.roots_of(a):
            break
        else:
            # not the curve polynomial of any x in play: an arbitrary residue
            if h.is_sym(a):
                ab = h.to_be(a, 32)
                if self.bit('residue', ab) == 1:
                    r = h.be(h.uf('root', 32, ab))
                    h.fact(r < self.P)
                    return r
            raise self.NT.SquareRootError('no root')
        ys = self.lift(self.red(x))
        if ys is None:
            raise self.NT.SquareRootError('no root')
        xb = h.to_be(self.red(x), 32)
        return ys[0] if self.bit('which', xb) == 1 else ys[1]

    # -------------------------------------------------- reference view
    def on_curve(self, x, y):
        """forks"""
        h = self.h
        if not h.all(x < self.P, y < self.P):
            return False
        return self.find(x, y) is not None

    def lift(self, x):
        """(y, p-y) when x < p is the x coordinate of a point, else None; forks"""
        h = self.h
        self.know_x(x)
        if h.is_sym(x) and not x < self.P:
            return None
        for l, x2, y2 in list(self.pts):
            if h.same_known(x, x2):
                return y2, self.P - y2
        for l, x2, y2 in list(self.pts):
            if x == x2:
                return y2, self.P - y2
        if any(x is z for z in self.nox):
            return None
        xb = h.to_be(x, 32)
        if self.bit('isx', xb) == 1:
            k = h.be(h.uf('dlogx', 32, xb))
            h.fact(h.all(k >= 1, k < self.N))
            y = h.be(h.uf('Yx', 32, xb))
            h.fact(h.all(y > 0, y < self.P))
            self.register(k, x, y)
            return y, self.P - y
        self.nox.append(x)
        for ox, oy in self.off:
            pass
        return None

    def mul(self, a, b):
        if self.opaque_mul:
            return self.product(a, b)
        return self.h.run(lambda: (a * b) % self.N)

    opaque_mul = False

    def product(self, a, b):
        """a*b mod n as a commutative function without zero divisors (n is prime) and with unit 1"""
        h = self.h
        if not h.is_sym(a) and not h.is_sym(b):
            return a * b % self.N
        a, b = [v % self.N if not h.is_sym(v) else v if h.surely(h.all(v >= 0, v < self.N)) else h.run(lambda: v % self.N) for v in (a, b)]
        for u, v in ((a, b), (b, a)):
            if not h.is_sym(u) and u <= 1:
                return v if u else 0
        a, b = sorted((a, b), key=lambda v: (0, v) if not h.is_sym(v) else (1, str(v.expr)))
        r = h.be(h.uf('product', self.LN, h.to_be(a, self.LN), h.to_be(b, self.LN)))
        h.fact(h.all(r < self.N, (r == 0) == h.any(a == 0, b == 0)))
        return r


def _point(self, k):
    o = self.mk(k)
    return o


Symbolic.point = _point


def EC(h, curve=None):
    """curve: a nbc Curve, secp256k1 by default (square roots only there)"""
    if curve is None:
        from nbc.util.ecdsa import SECP256k1 as curve
    return Symbolic(h, curve) if h.symbolic else Concrete(h, curve)
