"""Symbolic scalars: SymBool, SymInt (mathematical integer), SymFloat.

All constructors collapse to ordinary Python values when the term is a numeral,
so code under test only ever meets a proxy when a value really is unknown.
"""
import z3
from . import engine
from .engine import Unsupported

INF = None


def _cur():
    return engine.CUR


# ---------------------------------------------------------------- booleans
class SymBool(object):
    __slots__ = ('expr',)

    def __init__(self, expr):
        self.expr = expr

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return _cur().branch(self.expr)
    __nonzero__ = __bool__

    def __eq__(self, o):
        e = boolexpr(o)
        if e is None:
            return b2i(self) == o
        return mk_bool(self.expr == e)

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __hash__(self):
        return 7

    def __and__(self, o):
        e = boolexpr(o)
        if e is None:
            return b2i(self) & o
        return mk_bool(z3.And(self.expr, e))
    __rand__ = __and__

    def __or__(self, o):
        e = boolexpr(o)
        if e is None:
            return b2i(self) | o
        return mk_bool(z3.Or(self.expr, e))
    __ror__ = __or__

    def __xor__(self, o):
        e = boolexpr(o)
        if e is None:
            return b2i(self) ^ o
        return mk_bool(z3.Xor(self.expr, e))
    __rxor__ = __xor__

    def __invert__(self):
        return ~b2i(self)

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __repr__(self):
        return 'SymBool(%s)' % str(self.expr)[:60]

    def __str__(self):
        return str(bool(self))

    def __add__(self, o): return b2i(self) + o
    def __radd__(self, o): return o + b2i(self)
    def __sub__(self, o): return b2i(self) - o
    def __rsub__(self, o): return o - b2i(self)
    def __mul__(self, o): return b2i(self) * o
    def __rmul__(self, o): return o * b2i(self)
    def __neg__(self): return -b2i(self)
    def __lt__(self, o): return b2i(self) < o
    def __le__(self, o): return b2i(self) <= o
    def __gt__(self, o): return b2i(self) > o
    def __ge__(self, o): return b2i(self) >= o
    def __lshift__(self, o): return b2i(self) << o


def b2i(b):
    return mk_int(z3.If(b.expr, z3.IntVal(1), z3.IntVal(0)), 0, 1)


def boolexpr(o):
    if type(o) is SymBool:
        return o.expr
    if o is True:
        return z3.BoolVal(True)
    if o is False:
        return z3.BoolVal(False)
    return None


def mk_bool(e):
    if e is True or e is False:
        return e
    e = z3.simplify(e) if z3.is_app(e) and e.num_args() < 4 else e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def b_not(b):
    if type(b) is SymBool:
        return mk_bool(z3.Not(b.expr))
    return not b


def b_and(*bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.expr)
        elif not b:
            return False
    if not es:
        return True
    return mk_bool(z3.And(*es)) if len(es) > 1 else mk_bool(es[0])


def b_or(*bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.expr)
        elif b:
            return True
    if not es:
        return False
    return mk_bool(z3.Or(*es)) if len(es) > 1 else mk_bool(es[0])


def b_implies(a, b):
    return b_or(b_not(a), b)


# ---------------------------------------------------------------- integers
def mk_int(expr, lo=None, hi=None, cells=None, prov=None):
    """expr: z3 Int term or python int."""
    if isinstance(expr, int):
        return expr
    if z3.is_int_value(expr):
        return expr.as_long()
    # a singleton range does not collapse: the term keeps digit sums telescoping
    return SymInt(expr, lo, hi, cells, prov)


def is_sym_int(x):
    t = type(x)
    return t is SymInt or t is SymBool


def is_int(x):
    return type(x) is SymInt or type(x) is SymBool or isinstance(x, int)


def ie(x):
    """z3 Int expression of an int-like, or None"""
    t = type(x)
    if t is SymInt:
        return x.expr
    if t is SymBool:
        return z3.If(x.expr, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    return None


def rng(x):
    t = type(x)
    if t is SymInt:
        return engine.CUR.refine(x.expr, x._lo, x._hi)
    if t is SymBool:
        return 0, 1
    return int(x), int(x)


def _add(a, b):
    return None if a is None or b is None else a + b


def _min(*a):
    return None if any(x is None for x in a) else min(a)


def _max(*a):
    return None if any(x is None for x in a) else max(a)


def tighten(x):
    """ask the solver for nothing; reserved"""
    return x


class SymInt(object):
    __slots__ = ('expr', '_lo', '_hi', '_cells', 'prov')

    def __init__(self, expr, lo=None, hi=None, cells=None, prov=None):
        self.expr = expr
        self._lo = lo
        self._hi = hi
        self._cells = cells      # big-endian byte cells, value == sum cells[i]*256^..
        self.prov = prov

    @property
    def lo(self):
        return engine.CUR.refine(self.expr, self._lo, self._hi)[0]

    @property
    def hi(self):
        return engine.CUR.refine(self.expr, self._lo, self._hi)[1]

    @property
    def cells(self):
        if self._cells is None:
            m = engine.CUR.memo.get(('ic', self.expr.get_id()))
            if m is not None:
                return m[0]
        return self._cells

    @property
    def __class__(self):
        return int

    # -- conversions
    def __repr__(self):
        return 'SymInt(%s)[%s,%s]' % (str(self.expr)[:40], self.lo, self.hi)

    def __str__(self):
        return repr(self)

    def __hash__(self):
        return 7

    def __bool__(self):
        r = self._cmp(0, 'ne')
        return r if type(r) is bool else _cur().branch(r.expr)
    __nonzero__ = __bool__

    def __index__(self):
        return concretize(self)

    def __int__(self):
        return concretize(self)

    def __float__(self):
        return float(concretize(self))

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        return self

    def __pos__(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self

    # -- comparisons
    def _cmp(self, o, op):
        if type(o) is SymFloat or type(o) is float:
            return getattr(SymFloat(z3.ToReal(self.expr)), '__%s__' % op)(o)
        e = ie(o)
        if e is None:
            return NotImplemented
        if type(o) is int and z3.is_app(self.expr) and self.expr.num_args() > 1 and \
                self.expr.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            c = canon(self)
            if type(c) is not SymInt:
                return {'eq': c == o, 'ne': c != o, 'lt': c < o, 'le': c <= o, 'gt': c > o, 'ge': c >= o}[op]
            self = c
        if type(o) is int and self.prov is not None and self.prov[0] == 'tab' and op in ('eq', 'ne'):
            tab, idx = self.prov[1], self.prov[2]
            at = [i for i in range(len(tab)) if tab[i] == o]
            if len(at) == 1 and idx.lo is not None and idx.lo >= 0:
                r = canon(idx) == at[0]
                return r if op == 'eq' else b_not(r)
        lo, hi = rng(self)
        olo, ohi = rng(o)
        if type(o) is int:
            # floor(x/D) against a constant is a bound on x
            rt = _cur().memo.get(('root', self.expr.get_id()))
            if rt is not None and not (lo is not None and lo == hi):
                x, D = rt[0], rt[1]
                if op == 'ge':
                    return x >= o * D
                if op == 'gt':
                    return x >= (o + 1) * D
                if op == 'lt':
                    return x < o * D
                if op == 'le':
                    return x < (o + 1) * D
                if lo is not None and o == lo:
                    r = x < (o + 1) * D
                    return r if op == 'eq' else b_not(r)
                if hi is not None and o == hi:
                    r = x >= o * D
                    return r if op == 'eq' else b_not(r)
        if op == 'eq' or op == 'ne':
            if (hi is not None and olo is not None and hi < olo) or \
               (lo is not None and ohi is not None and lo > ohi):
                return op == 'ne'
            c = self.expr == e
            return mk_bool(c if op == 'eq' else z3.Not(c))
        if op == 'lt':
            if hi is not None and olo is not None and hi < olo:
                return True
            if lo is not None and ohi is not None and lo >= ohi:
                return False
            return mk_bool(self.expr < e)
        if op == 'le':
            if hi is not None and olo is not None and hi <= olo:
                return True
            if lo is not None and ohi is not None and lo > ohi:
                return False
            return mk_bool(self.expr <= e)
        if op == 'gt':
            if lo is not None and ohi is not None and lo > ohi:
                return True
            if hi is not None and olo is not None and hi <= olo:
                return False
            return mk_bool(self.expr > e)
        if op == 'ge':
            if lo is not None and ohi is not None and lo >= ohi:
                return True
            if hi is not None and olo is not None and hi < olo:
                return False
            return mk_bool(self.expr >= e)

    def __eq__(self, o):
        r = self._cmp(o, 'eq')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, 'ne')
        return True if r is NotImplemented else r

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')

    # -- arithmetic
    def __add__(self, o):
        if type(o) is SymFloat or type(o) is float:
            return SymFloat(z3.ToReal(self.expr)) + o
        e = ie(o)
        if e is None:
            return NotImplemented
        if isinstance(o, int) and type(o) is not SymInt and type(o) is not SymBool and o == 0:
            return self
        olo, ohi = rng(o)
        # hi-part + low-part of a byte string: keep the byte structure
        c = _cells_sum(self, o)
        return mk_int(z3.simplify(self.expr + e), _add(self.lo, olo), _add(self.hi, ohi), cells=c)
    __radd__ = __add__

    def __neg__(self):
        return mk_int(-self.expr, None if self.hi is None else -self.hi, None if self.lo is None else -self.lo)

    def __sub__(self, o):
        if type(o) is SymFloat or type(o) is float:
            return SymFloat(z3.ToReal(self.expr)) - o
        e = ie(o)
        if e is None:
            return NotImplemented
        olo, ohi = rng(o)
        return mk_int(z3.simplify(self.expr - e), None if self.lo is None or ohi is None else self.lo - ohi,
                      None if self.hi is None or olo is None else self.hi - olo)

    def __rsub__(self, o):
        if type(o) is float:
            return SymFloat(z3.RealVal(repr(o))) - self
        e = ie(o)
        if e is None:
            return NotImplemented
        olo, ohi = rng(o)
        return mk_int(z3.simplify(e - self.expr), None if self.hi is None or olo is None else olo - self.hi,
                      None if self.lo is None or ohi is None else ohi - self.lo)

    def __mul__(self, o):
        t = type(o)
        if t is SymFloat or t is float:
            return SymFloat(z3.ToReal(self.expr)) * o
        e = ie(o)
        if e is None:
            if isinstance(o, (bytes, str, list, tuple, bytearray)):
                return seq_repeat(o, self)
            return NotImplemented
        olo, ohi = rng(o)
        if None in (self.lo, self.hi, olo, ohi):
            lo = 0 if (self.lo is not None and self.lo >= 0 and olo is not None and olo >= 0) else None
            hi = None
            if t is SymInt and o is self:
                lo = 0
        else:
            ps = [self.lo * olo, self.lo * ohi, self.hi * olo, self.hi * ohi]
            lo, hi = min(ps), max(ps)
        if t is int:
            if o == 0:
                return 0
            if o == 1:
                return self
            if self.cells is not None and o > 0 and o & (o - 1) == 0 and (o.bit_length() - 1) % 8 == 0:
                k = (o.bit_length() - 1) // 8
                return mk_int(z3.simplify(self.expr * e, som=True), lo, hi, cells=tuple(self.cells) + (0,) * k)
            return mk_int(z3.simplify(self.expr * e, som=True), lo, hi)
        return mk_int(self.expr * e, lo, hi)
    __rmul__ = __mul__

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def _divisor(self, o):
        """ensure o != 0; return (expr, sign) with sign known"""
        if is_sym_int(o):
            if o == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if o > 0:
                return ie(o), 1
            return ie(o), -1
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        return z3.IntVal(int(o)), 1 if o > 0 else -1

    def __floordiv__(self, o):
        if type(o) is float or type(o) is SymFloat:
            raise Unsupported('float floordiv')
        if ie(o) is None:
            return NotImplemented
        return _fdiv(self, o)

    def __rfloordiv__(self, o):
        if ie(o) is None:
            return NotImplemented
        return _fdiv(o, self)

    def __mod__(self, o):
        if type(o) is float or type(o) is SymFloat:
            raise Unsupported('float mod')
        if ie(o) is None:
            return NotImplemented
        return _fmod(self, o)

    def __rmod__(self, o):
        if ie(o) is None:
            return NotImplemented
        return _fmod(o, self)

    def __truediv__(self, o):
        if is_int(o):
            if o == 0:
                raise ZeroDivisionError('division by zero')
            for v in (self, o):
                l, h = rng(v)
                if l is None or h is None or max(abs(l), abs(h)) > 2 ** 53:
                    _cur().stats.inconclusive.append('true division of a large symbolic integer (float rounding)')
            return SymFloat(z3.ToReal(self.expr) / z3.ToReal(ie(o)))
        if type(o) in (float, SymFloat):
            return SymFloat(z3.ToReal(self.expr)) / o
        return NotImplemented
    __div__ = __truediv__

    def __rtruediv__(self, o):
        if is_int(o):
            return SymFloat(z3.ToReal(ie(o))) / self
        if type(o) in (float, SymFloat):
            return SymFloat(realexpr(o)) / self
        return NotImplemented

    def __pow__(self, o, m=None):
        if m is not None:
            from . import models
            return models.m_pow(self, o, m)
        if is_sym_int(o):
            o = concretize(o)
        if not isinstance(o, int):
            raise Unsupported('pow with %r' % type(o))
        if o < 0:
            raise Unsupported('negative power')
        if o > 64:
            raise Unsupported('large power')
        r = 1
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o, m=None):
        k = concretize(self)
        return pow(o, k) if m is None else pow(o, k, m)

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        if self.hi is not None and self.hi <= 0:
            return -self
        hi = None if self.lo is None or self.hi is None else max(abs(self.lo), abs(self.hi))
        return mk_int(z3.If(self.expr >= 0, self.expr, -self.expr), 0, hi)

    def __invert__(self):
        return -self - 1

    def __lshift__(self, o):
        if is_sym_int(o):
            o = concretize(o)
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            raise ValueError('negative shift count')
        if self.prov is not None and self.prov[0] in ('gf2', 'tw') and 0 < o <= 64:
            from . import gf2
            r = gf2.tw_shift(self, o) if self.prov[0] == 'tw' else gf2.shift_left(self, o) if o % 8 else None
            if r is not None:
                return r
        if o % 8 == 0 and 0 < o <= 512:
            c = _cells_of(self)
            if c is not None:
                return cells_int(c + [0] * (o // 8))
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << concretize(self)

    def __rshift__(self, o):
        if is_sym_int(o):
            o = concretize(o)
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            raise ValueError('negative shift count')
        if self.prov is not None and self.prov[0] in ('gf2', 'tw'):
            from . import gf2
            if self.prov[0] == 'gf2':
                return gf2.shift_right(self, o)
            r = gf2.tw_shift(self, -o)
            if r is not None:
                return r
        return _fdiv(self, 1 << o)

    def __rrshift__(self, o):
        return o >> concretize(self)

    def __and__(self, o):
        if ie(o) is None:
            return NotImplemented
        return bit_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        if ie(o) is None:
            return NotImplemented
        return bit_or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        if ie(o) is None:
            return NotImplemented
        return bit_xor(self, o)
    __rxor__ = __xor__

    def bit_length(self):
        a = abs(self)
        if type(a) is int:
            return a.bit_length()
        if a.hi is not None and a.hi.bit_length() <= 600:
            # no forking: one ITE chain
            e = z3.IntVal(0)
            lo = (a.lo or 0).bit_length()
            hi = a.hi.bit_length()
            e = z3.IntVal(lo)
            for k in range(lo, hi):
                e = z3.If(a.expr >= (1 << k), z3.IntVal(k + 1), e)
            return mk_int(e, lo, hi)
        n = 0
        while a >= (1 << n):
            n += 1
            if n > 4096:
                raise Unsupported('bit_length')
        return n

    def to_bytes(self, length=1, byteorder='big', signed=False):
        from . import rope
        n = concretize(length) if is_sym_int(length) else length
        v = self
        if signed:
            if v >= (1 << (8 * n - 1)) or v < -(1 << (8 * n - 1)):
                raise OverflowError('int too big to convert')
            v = v % (1 << (8 * n))
        else:
            if v < 0:
                raise OverflowError("can't convert negative int to unsigned")
            if v >= (1 << (8 * n)):
                raise OverflowError('int too big to convert')
        cs = int_cells(v, n)
        if byteorder == 'little':
            cs = cs[::-1]
        elif byteorder != 'big':
            raise ValueError("byteorder must be either 'little' or 'big'")
        return rope.mk('b', cs)

    def __format__(self, spec):
        raise Unsupported('native format of a symbolic int')

    def __reduce__(self):
        raise Unsupported('pickle of a symbolic int')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def linear(e):
    """(constant, {id: [coefficient, atom]}) of an Int term"""
    const = 0
    co = {}
    stack = [(e, 1)]
    while stack:
        t, k = stack.pop()
        if z3.is_int_value(t):
            const += k * t.as_long()
        elif z3.is_add(t):
            stack.extend((c, k) for c in t.children())
        elif z3.is_sub(t) and t.num_args() == 2:
            stack.append((t.arg(0), k))
            stack.append((t.arg(1), -k))
        elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
            stack.append((t.arg(1), k * t.arg(0).as_long()))
        elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(1)):
            stack.append((t.arg(0), k * t.arg(1).as_long()))
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
            stack.append((t.arg(0), -k))
        else:
            i = t.get_id()
            if i in co:
                co[i][0] += k
            else:
                co[i] = [k, t]
    return const, {i: c for i, c in co.items() if c[0]}


def canon(v):
    """the same integer in its most structured form: known symbols replaced by their values, byte sums
    recognised"""
    if type(v) is not SymInt or v.cells is not None:
        return v
    p = _cur()
    i = v.expr.get_id()
    key = ('canon', i)
    m = p.memo.get(key)
    stamp = len(p.pc)
    if m is not None and (m[2] == stamp or m[3]):
        return m[0]
    if z3.is_const(v.expr) and not z3.is_int_value(v.expr):
        lo, hi = v.lo, v.hi
        r = v
        p.memo[key] = (r, v.expr, stamp, False)
        return r
    const, co = linear(v.expr)
    changed = False
    nco = {}
    for j, (k, t) in co.items():
        lo, hi = p.refine(t, None, None)
        if lo is not None and lo == hi:
            const += k * lo
            changed = True
            continue
        nco[j] = (k, t)
    final = False
    if not nco:
        r, final = const, True
    else:
        lk = ('lin', const) + tuple(sorted((j, k) for j, (k, t) in nco.items()))
        r = p.memo.get(lk)
        if r is not None:
            r = r[0]
            final = True
        else:
            cs = _lin_cells(const, nco)
            if cs is not None:
                r = cells_int(cs)
                final = True
                p.memo[lk] = (r, [t for k, t in nco.values()])
            elif len(nco) == 1 and const == 0 and list(nco.values())[0][0] == 1:
                t = list(nco.values())[0][1]
                r = SymInt(t, *p.refine(t, v._lo, v._hi))
            elif changed:
                terms = [t if k == 1 else t * k for k, t in nco.values()]
                if const:
                    terms.append(z3.IntVal(const))
                ex = z3.simplify(z3.Sum(terms), som=True) if len(terms) > 1 else terms[0]
                r = mk_int(ex, v.lo, v.hi)
            else:
                r = v
    p.memo[key] = (r, v.expr, stamp, final)
    return r


def _lin_cells(const, nco):
    if const < 0:
        return None
    pos = {}
    p = _cur()
    for k, t in nco.values():
        if k <= 0 or k & (k - 1) or (k.bit_length() - 1) % 8:
            return None
        at = (k.bit_length() - 1) // 8
        m = p.memo.get(('ic', t.get_id()))
        if m is not None:
            cs = m[0]
        else:
            m = p.memo.get(('byte', t.get_id()))
            if m is None:
                return None
            cs = (m[0],)
        for j, c in enumerate(reversed(cs)):
            if type(c) is int and c == 0:
                continue
            if at + j in pos:
                return None
            pos[at + j] = c
    n = max(pos) + 1
    j = 0
    while const:
        if const & 255:
            if j in pos:
                return None
            pos[j] = const & 255
        const >>= 8
        j += 1
        n = max(n, j)
    return [pos.get(j, 0) for j in range(n - 1, -1, -1)]


def byte_atom(c):
    """remember that the term of c is a byte"""
    if type(c) is SymInt:
        p = _cur()
        p.memo.setdefault(('byte', c.expr.get_id()), (c, c.expr))
    return c


def _fdiv(a, b):
    a = canon(a)
    if type(b) is int or (type(b) is bool):
        b = int(b)
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if type(a) is int:
            return a // b
        if type(a) is SymBool:
            a = b2i(a)
        if b == 1:
            return a
        if b > 0:
            lo = None if a.lo is None else a.lo // b
            hi = None if a.hi is None else a.hi // b
            if lo is not None and lo == hi == 0:
                return 0
            if b & (b - 1) == 0 and (b.bit_length() - 1) % 8 == 0 and a.cells is not None:
                k = (b.bit_length() - 1) // 8
                return cells_int(a.cells[:-k]) if k < len(a.cells) else 0
            q, r = _divmod_const(a, b)
            return q
        return _fdiv(-a, -b)
    e = a._divisor(b) if type(a) is SymInt else SymInt._divisor(b, b)
    s = e[1]
    if s < 0:
        return _fdiv(-a, -b)
    return _divmod_sym(a, b)[0]


def _fmod(a, b):
    a = canon(a)
    if type(b) is int or type(b) is bool:
        b = int(b)
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if type(a) is int:
            return a % b
        if type(a) is SymBool:
            a = b2i(a)
        if b > 0:
            if a.lo is not None and a.hi is not None and a.lo // b == a.hi // b == 0:
                return a
            if b & (b - 1) == 0 and (b.bit_length() - 1) % 8 == 0 and a.cells is not None:
                k = (b.bit_length() - 1) // 8
                return cells_int(a.cells[-k:]) if k else 0
            q, r = _divmod_const(a, b)
            return r
        return -_fmod(-a, -b)
    SymInt._divisor(b, b) if type(b) is SymInt else None
    if b < 0:
        return -_fmod(-a, -b)
    return _divmod_sym(a, b)[1]


def _divmod_const(a, b):
    """floor quotient/remainder by a positive constant.

    q is tied directly to the root of a division chain, floor(floor(x/c)/d) == floor(x/(c*d)),
    and the remainder is a term over quotients, so sums of digits telescope syntactically."""
    p = _cur()
    key = ('dm', a.expr.get_id(), b)
    m = p.memo.get(key)
    if m is not None and m[1] is not None:
        return m[0], m[1]
    lo, hi = rng(a)
    qlo = None if lo is None else lo // b
    qhi = None if hi is None else hi // b
    if qlo is not None and qlo == qhi == 0:
        Q = qlo
        R = mk_int(z3.simplify(a.expr - b * qlo), 0, b - 1)
        p.memo[key] = (Q, R, a.expr)
        return Q, R
    root, d = p.memo.get(('root', a.expr.get_id()), (a, 1))[:2]
    D = d * b
    key2 = ('dm', root.expr.get_id(), D)
    m = p.memo.get(key2)
    if m is not None and type(m[0]) is SymInt:
        q = m[0].expr
    else:
        q = z3.Int(p.fresh('q'))
        t = root.expr - D * q
        p.defsym(q, t >= 0, t <= D - 1)
        p.memo[('root', q.get_id())] = (root, D, q)
    r = z3.simplify(a.expr - b * q, som=True)
    if d != 1:
        p.defsym(q, r >= 0, r <= b - 1)
    Q, R = SymInt(q, qlo, qhi), SymInt(r, 0, b - 1)
    p.memo[key] = (Q, R, a.expr)
    if d != 1:
        p.memo.setdefault(key2, (Q, None, root.expr))
    return Q, R


def _divmod_sym(a, b):
    p = _cur()
    ea, eb = ie(a), ie(b)
    key = ('dms', ea.get_id(), eb.get_id())
    m = p.memo.get(key)
    if m is not None:
        return m[0], m[1]
    q = z3.Int(p.fresh('q'))
    r = z3.Int(p.fresh('r'))
    dq = z3.And(ea == eb * q + r, r >= 0, r < eb)
    p.defsym(q, dq)
    p.defsym(r, dq)
    alo, ahi = rng(a)
    blo, bhi = rng(b)
    qlo = qhi = None
    if alo is not None and alo >= 0:
        qlo = 0
        if ahi is not None:
            qhi = ahi // max(blo or 1, 1)
        p.defsym(q, q >= 0)
    rhi = None if bhi is None else bhi - 1
    Q, R = SymInt(q, qlo, qhi), SymInt(r, 0, rhi)
    p.memo[key] = (Q, R, ea, eb)
    return Q, R


# ------------------------------------------------------- bytes <-> integers
def cells_int(cells):
    """big-endian byte cells -> integer, remembering the bytes"""
    cells = tuple(cells)
    i = 0
    while i < len(cells) and type(cells[i]) is not SymInt and cells[i] == 0:
        i += 1
    cells = cells[i:]
    if not cells:
        return 0
    if all(type(c) is int for c in cells):
        return int.from_bytes(bytes(cells), 'big')
    if len(cells) == 1:
        return cells[0]
    p = _cur()
    key = ('ci',) + tuple(c.expr.get_id() if type(c) is SymInt else ('c', c) for c in cells)
    m = p.memo.get(key)
    if m is not None:
        return m[0]
    e = []
    lo = hi = 0
    n = len(cells)
    for i, c in enumerate(cells):
        w = 256 ** (n - 1 - i)
        if type(c) is SymInt:
            e.append(c.expr * w)
            lo += (c.lo or 0) * w
            hi += (255 if c.hi is None else c.hi) * w
        else:
            if c:
                e.append(z3.IntVal(c * w))
            lo += c * w
            hi += c * w
    ex = z3.Sum(e) if len(e) > 1 else e[0]
    # name the integer: keeps later terms small
    nm = z3.Int(p.fresh('n'))
    p.defsym(nm, nm == ex, nm >= lo, nm <= hi)
    v = SymInt(nm, lo, hi, cells=cells)
    p.memo[key] = (v, cells)
    p.memo.setdefault(('ic', nm.get_id()), (cells, nm))
    return v


def int_cells(v, n):
    """n big-endian byte cells of 0 <= v < 256**n (the caller has checked the range)"""
    if type(v) is SymBool:
        v = b2i(v)
    v = canon(v)
    if type(v) is not SymInt:
        return list(int(v).to_bytes(n, 'big'))
    cs = None
    if v.cells is not None:
        cs = list(v.cells)
    else:
        p = _cur()
        m = p.memo.get(('ic', v.expr.get_id()))
        if m is not None:
            cs = list(m[0])
    if cs is None:
        if n == 0:
            return []
        if n == 1:
            return [narrow(v, 0, 255)]
        p = _cur()
        need = n
        if v.hi is not None:
            need = min(n, max(1, (v.hi.bit_length() + 7) // 8))
        if need == 1:
            cs = [narrow(v, 0, 255)]
        else:
            cs = []
            tot = []
            for i in range(need):
                b = z3.Int(p.fresh('b'))
                cs.append(byte_atom(SymInt(b, 0, 255)))
                tot.append(b * 256 ** (need - 1 - i))
            eqn = v.expr == z3.Sum(tot)
            for c in cs:
                p.defsym(c.expr, c.expr >= 0, c.expr <= 255, eqn)
            p.memo[('ic', v.expr.get_id())] = (tuple(cs), v.expr)
            p.memo.setdefault(('ci',) + tuple(c.expr.get_id() for c in cs),
                              (SymInt(v.expr, max(v.lo or 0, 0), min(256 ** need - 1, v.hi if v.hi is not None else 256 ** need), cells=tuple(cs)), cs))
    if len(cs) < n:
        cs = [0] * (n - len(cs)) + cs
    elif len(cs) > n:
        cs = cs[len(cs) - n:]
    return cs


def narrow(v, lo, hi):
    if type(v) is not SymInt:
        return v
    nlo = lo if v.lo is None else max(lo, v.lo)
    nhi = hi if v.hi is None else min(hi, v.hi)
    if nlo == v.lo and nhi == v.hi:
        return v
    return SymInt(v.expr, nlo, nhi, v.cells, v.prov)


def _cells_of(x):
    """byte cells of a non-negative int whose byte structure is known"""
    if type(x) is SymInt:
        if x.cells is not None:
            return list(x.cells)
        if x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi <= 255:
            return [x]
        return None
    if type(x) is SymBool:
        return None
    x = int(x)
    if x < 0:
        return None
    return list(x.to_bytes((x.bit_length() + 7) // 8, 'big'))


def _cells_sum(a, b):
    """cells of a+b (== a|b == a^b) when their non-zero byte positions are disjoint"""
    if not ((type(a) is SymInt and a.cells is not None) or (type(b) is SymInt and b.cells is not None)):
        return None
    ca, cb = _cells_of(a), _cells_of(b)
    if ca is None or cb is None:
        return None
    n = max(len(ca), len(cb))
    ca = [0] * (n - len(ca)) + ca
    cb = [0] * (n - len(cb)) + cb
    out = []
    for x, y in zip(ca, cb):
        if type(x) is int and x == 0:
            out.append(y)
        elif type(y) is int and y == 0:
            out.append(x)
        else:
            return None
    return tuple(out)


# ------------------------------------------------------------- bit operations
def _runs(mask):
    """contiguous runs of set bits: [(shift, width)]"""
    out = []
    s = 0
    while mask:
        while not mask & 1:
            mask >>= 1
            s += 1
        w = 0
        while mask & 1:
            mask >>= 1
            w += 1
        out.append((s, w))
        s += w
    return out


def bit_and(a, b):
    if type(a) is not SymInt and type(a) is not SymBool:
        a, b = b, a
    if type(a) is SymBool:
        a = b2i(a)
        if type(a) is int:
            return a & b
    if type(b) is SymBool:
        b = b2i(b)
    if type(b) is not SymInt:
        b = int(b)
        if b == 0:
            return 0
        if a.prov is not None and a.prov[0] == 'tw':
            from . import gf2
            return gf2.tw_and(a, b)
        if b < 0:
            # a & ~m == a - (a & m)
            return a - bit_and(a, ~b) if ~b else a
        if a.prov is not None and a.prov[0] == 'gf2':
            from . import gf2
            return gf2.and_const(a, b)
        if a.cells is not None and len(a.cells) > 1:
            n = len(a.cells)
            mb = [(b >> (8 * (n - 1 - i))) & 255 for i in range(n)]
            if all(x in (0, 255) for x in mb):
                return cells_int([c if m else 0 for c, m in zip(a.cells, mb)])
            return cells_int([0 if m == 0 else (c if m == 255 else c & m) for c, m in zip(a.cells, mb)])
        if a.lo is not None and a.lo >= 0 and a.hi is not None:
            full = (1 << a.hi.bit_length()) - 1
            if b & full == full:
                return a
            b &= full
            if b == 0:
                return 0
        r = 0
        for s, w in _runs(b):
            r = r + (((a >> s) % (1 << w)) << s)
        return r
    # symbolic & symbolic: bit by bit
    return _bitwise(a, b, lambda x, y: z3.And(x, y))


def _nbits(a):
    lo, hi = rng(a)
    if lo is None or lo < 0:
        if a >= 0:
            lo = 0
        else:
            raise Unsupported('bit operation on a negative symbolic integer')
    if hi is None:
        for w in (8, 16, 32, 64, 128, 256):
            if _cur().must(a.expr < (1 << w)):
                return w
        raise Unsupported('bit operation on an unbounded symbolic integer')
    return hi.bit_length()


def _bitwise(a, b, f):
    na, nb = _nbits(a), _nbits(b)
    n = max(na, nb)
    if n > 64:
        raise Unsupported('symbolic bitwise op on %d bits' % n)
    ba, bb = _bits(a, n), _bits(b, n)
    r = z3.Sum([z3.If(f(x, y), z3.IntVal(1 << i), z3.IntVal(0)) for i, (x, y) in enumerate(zip(ba, bb))])
    return mk_int(r, 0, (1 << n) - 1)


def _bits(a, n):
    if type(a) is not SymInt:
        a = int(a)
        return [z3.BoolVal(bool((a >> i) & 1)) for i in range(n)]
    p = _cur()
    key = ('bits', a.expr.get_id())
    m = p.memo.get(key)
    if m is None or len(m[0]) < n:
        k = max(n, _nbits(a))
        bs = [z3.Bool(p.fresh('bit')) for _ in range(k)]
        eqn = a.expr == z3.Sum([z3.If(x, z3.IntVal(1 << i), z3.IntVal(0)) for i, x in enumerate(bs)])
        for x in bs:
            p.defsym(x, eqn)
        m = (bs, a.expr)
        p.memo[key] = m
    return m[0][:n]


def _trailing_zeros(x):
    """a lower bound on the number of trailing zero bits, syntactically"""
    if type(x) is not SymInt:
        x = int(x)
        return 10 ** 6 if x == 0 else (x & -x).bit_length() - 1
    if x.cells is not None:
        k = 0
        for c in reversed(x.cells):
            if type(c) is int and c == 0:
                k += 8
            else:
                return k + (_trailing_zeros(c) if type(c) is int else 0)
        return k
    e = x.expr
    if z3.is_mul(e):
        for ch in e.children():
            if z3.is_int_value(ch):
                return _trailing_zeros(ch.as_long())
    return 0


def bit_or(a, b):
    for x, y in ((a, b), (b, a)):
        if type(x) is not SymInt and type(x) is not SymBool and int(x) == 0:
            return y
    c = _cells_sum(a, b)
    if c is not None:
        return cells_int(c)
    for x, y in ((a, b), (b, a)):
        lo, hi = rng(y)
        if hi is not None and lo is not None and lo >= 0 and hi.bit_length() <= _trailing_zeros(x):
            return x + y
    if type(a) is not SymInt and type(a) is not SymBool:
        a, b = b, a
    if type(b) is int:
        if b < 0:
            raise Unsupported('or with negative')
        return a + b - bit_and(a, b)
    return _bitwise(a, b, lambda x, y: z3.Or(x, y))


def bit_xor(a, b):
    for x, y in ((a, b), (b, a)):
        if type(x) is not SymInt and type(x) is not SymBool and int(x) == 0:
            return y
    c = _cells_sum(a, b)
    if c is not None:
        return cells_int(c)
    for x, y in ((a, b), (b, a)):
        lo, hi = rng(y)
        if hi is not None and lo is not None and lo >= 0 and hi.bit_length() <= _trailing_zeros(x):
            return x + y
    from . import gf2
    r = gf2.xor_ints(a, b)
    if r is not None:
        return r
    if type(a) is not SymInt and type(a) is not SymBool:
        a, b = b, a
    if type(b) is int:
        if b == -1:
            return ~a
        if b < 0:
            raise Unsupported('xor with negative')
        return a + b - 2 * bit_and(a, b)
    return _bitwise(a, b, lambda x, y: z3.Xor(x, y))


# ------------------------------------------------------------- concretisation
ENUM_LIMIT = 1100


def concretize(v, limit=ENUM_LIMIT):
    """A concrete Python int; forks over every feasible value (bisection)."""
    if type(v) is SymBool:
        return int(bool(v))
    if type(v) is not SymInt:
        return int(v)
    p = _cur()
    lo, hi = v.lo, v.hi
    if lo is None:
        lo = p.find_bound(v.expr, -1)
    if hi is None:
        hi = p.find_bound(v.expr, +1)
    if lo is None or hi is None or hi - lo > limit:
        # try to let the solver tighten before giving up
        tl, th = p.tight_bounds(v.expr, lo, hi)
        if tl is None or th is None or th - tl > limit:
            m = p.choose_value(v.expr)
            p.stats.concretised.append('integer with a wide range fixed to one model value')
            return m
        lo, hi = tl, th
    while lo < hi:
        mid = (lo + hi) // 2
        if p.branch(v.expr <= mid):
            hi = mid
        else:
            lo = mid + 1
    p.note_eq(v.expr, lo)
    return lo


def seq_repeat(seq, n):
    from . import rope
    if isinstance(seq, (bytes, str, bytearray)) and len(seq) == 1 and n.hi is not None and n.hi > ENUM_LIMIT:
        raise Unsupported('repeat of a wide symbolic count')
    return seq * concretize(n)


# ------------------------------------------------------------- reals
def realexpr(o):
    t = type(o)
    if t is SymFloat:
        return o.expr
    if t is SymInt or t is SymBool:
        return z3.ToReal(ie(o))
    if isinstance(o, bool):
        return z3.RealVal(int(o))
    if isinstance(o, int):
        return z3.RealVal(o)
    if isinstance(o, float):
        from fractions import Fraction
        return z3.RealVal(str(Fraction(o)))
    return None


def mk_real(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        return float(e.as_fraction())
    return SymFloat(e)


class SymFloat(object):
    """A float modelled as an exact real (used for clocks and timers)."""
    __slots__ = ('expr',)

    def __init__(self, expr):
        self.expr = expr

    @property
    def __class__(self):
        return float

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'SymFloat(%s)' % str(self.expr)[:40]

    def __bool__(self):
        return _cur().branch(self.expr != 0)

    def _b(self, o, f, c=None):
        e = realexpr(o)
        if e is None:
            return NotImplemented
        r = f(self.expr, e)
        return mk_bool(z3.simplify(r)) if c else mk_real(r)

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if o == 0:
            raise ZeroDivisionError('float division by zero')
        return self._b(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return mk_real(realexpr(o)) / self if type(o) is not SymFloat else o / self

    def __neg__(self): return mk_real(-self.expr)

    def __abs__(self):
        return mk_real(z3.If(self.expr >= 0, self.expr, -self.expr))

    def __lt__(self, o): return self._b(o, lambda a, b: a < b, 1)
    def __le__(self, o): return self._b(o, lambda a, b: a <= b, 1)
    def __gt__(self, o): return self._b(o, lambda a, b: a > b, 1)
    def __ge__(self, o): return self._b(o, lambda a, b: a >= b, 1)

    def __eq__(self, o):
        r = self._b(o, lambda a, b: a == b, 1)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def to_int(self):
        fl = z3.ToInt(self.expr)
        return mk_int(z3.simplify(z3.If(self.expr >= 0, fl, -z3.ToInt(-self.expr))))

    def __int__(self):
        return concretize(self.to_int())

    def __float__(self):
        raise Unsupported('native float() of a symbolic real')
