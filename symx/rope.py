"""Symbolic byte and character sequences.

A Rope is a list of items, each one of
  * int         a known byte / character code,
  * SymInt      an unknown byte / character code,
  * Blob        a run of unknown bytes whose *length may itself be symbolic*,
  * Tok         the decimal rendering of a symbolic integer (length unknown).
Results that contain no unknown collapse to ordinary bytes / str.
"""
import z3
from . import engine
from .engine import Unsupported
from . import values as V
from .values import SymInt, SymBool, mk_int, mk_bool, ie


def _cur():
    return engine.CUR


class Blob(object):
    __slots__ = ('arr', 'off', 'length', 'hi')

    def __init__(self, arr, off, length, hi=255):
        self.arr = arr
        self.off = off          # int or SymInt
        self.length = length    # int or SymInt (>= 1 not required)
        self.hi = hi

    def cell(self, i):
        p = _cur()
        idx = self.off + i
        e = z3.simplify(z3.Select(self.arr, ie(idx)))
        key = ('blobcell', e.get_id())
        if key not in p.memo:
            p.memo[key] = e
            p.defsym(e, e >= 0, e <= self.hi)
            if self.hi <= 255:
                V.byte_atom(SymInt(e, 0, self.hi))
        return SymInt(e, 0, self.hi)

    def sub(self, a, n):
        return Blob(self.arr, self.off + a, n, self.hi)


class Tok(object):
    __slots__ = ('kind', 'val')

    def __init__(self, kind, val):
        self.kind = kind
        self.val = val


def kind_of(x):
    if type(x) is Rope:
        return x.kind
    if isinstance(x, bytearray):
        return 'a'
    if isinstance(x, bytes):
        return 'b'
    if isinstance(x, str):
        return 's'
    if isinstance(x, memoryview):
        return 'b'
    return None


def items_of(x):
    if type(x) is Rope:
        return x.items
    if isinstance(x, str):
        return [ord(c) for c in x]
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    if isinstance(x, memoryview):
        return list(bytes(x))
    raise TypeError('not a sequence: %r' % type(x))


def is_seq(x):
    return type(x) is Rope or isinstance(x, (bytes, bytearray, str))


def mk(kind, items):
    """collapse to a native value when everything is known"""
    items = list(items)
    for it in items:
        if type(it) is not int:
            break
    else:
        if kind == 'b':
            return bytes(items)
        if kind == 's':
            return ''.join(map(chr, items))
        return bytearray(items)
    out = []
    for it in items:
        if type(it) is Blob and type(it.length) is int:
            if it.length == 0:
                continue
            if it.length <= 64:
                out.extend(it.cell(i) for i in range(it.length))
                continue
        out.append(it)
    if not out or all(type(it) is int for it in out):
        return mk(kind, out) if len(out) != len(items) else Rope(kind, out)
    return Rope(kind, out)


def ilen(it):
    if type(it) is Blob:
        return it.length
    if type(it) is Tok:
        raise Unsupported('length of a token')
    return 1


_TOKCHARS = {'dec': frozenset(b'0123456789'), 'hex': frozenset(b'0123456789abcdef')}


def _tok_in(t, ch):
    """are all the characters of a token among ch (True), none (False), or unclear (None)"""
    cs = _TOKCHARS[t.kind]
    if t.kind == 'dec' and not (type(t.val.lo) is int and t.val.lo >= 0):
        cs = cs | {45}
    s = set(ch)
    return True if cs <= s else False if not cs & s else None


def tok_cells(t):
    """digits of a Tok; forks on the number of digits"""
    v = t.val
    if t.kind == 'hex':
        n = 1
        while not (v < 16 ** n):
            n += 1
            if n > 600:
                raise Unsupported('hex rendering too long')
        out = []
        for c in V.int_cells(v, (n + 1) // 2):
            out += list(nibbles(c))
        return [hexchar(d) for d in out[len(out) - n:]]
    out = []
    if v < 0:
        out.append(45)
        v = -v
    n = 1
    while not (v < 10 ** n):
        n += 1
        if n > 80:
            raise Unsupported('decimal rendering too long')
    ds = []
    for _ in range(n - 1):
        q, r = v // 10, v % 10
        ds.append(r + 48)
        v = q
    ds.append(v + 48)
    ds.reverse()
    p = _cur()
    p.memo[('decd',) + tuple(d.expr.get_id() if type(d) is SymInt else d for d in ds)] = (abs(t.val), ds)
    return out + [V.narrow(d, 48, 57) for d in ds]


class Rope(object):
    __slots__ = ('kind', 'items')

    def __init__(self, kind, items):
        self.kind = kind
        self.items = items

    @property
    def __class__(self):
        return bytes if self.kind == 'b' else str if self.kind == 's' else bytearray

    def __repr__(self):
        return '<Rope %s %d items>' % (self.kind, len(self.items))

    def __str__(self):
        return repr(self)

    def __hash__(self):
        if self.kind == 'a':
            raise TypeError('unhashable type: bytearray')
        return 7

    def __reduce__(self):
        raise Unsupported('pickle of a symbolic sequence')

    def __copy__(self):
        return Rope(self.kind, list(self.items))

    def __deepcopy__(self, m):
        return Rope(self.kind, list(self.items))

    def concrete(self, model):
        out = []
        for it in self.items:
            t = type(it)
            if t is int:
                out.append(it)
            elif t is SymInt:
                out.append(model.eval(it.expr, model_completion=True).as_long())
            elif t is Blob:
                n = it.length if type(it.length) is int else model.eval(it.length.expr, model_completion=True).as_long()
                o = it.off if type(it.off) is int else model.eval(it.off.expr, model_completion=True).as_long()
                n = min(n, 1 << 20)
                for i in range(n):
                    if i < 4096:
                        b = model.eval(z3.Select(it.arr, z3.IntVal(o + i)), model_completion=True).as_long()
                        out.append(b if 0 <= b <= it.hi else 0)
                    else:
                        out.append(0)
            else:
                v = model.eval(it.val.expr, model_completion=True).as_long()
                out.extend(ord(c) for c in (str(v) if it.kind == 'dec' else '%x' % v))
        if self.kind == 's':
            return ''.join(map(chr, out))
        return bytes(out)

    # ---------------------------------------------------------------- basics
    def _norm(self):
        """materialise tokens"""
        if any(type(it) is Tok for it in self.items):
            out = []
            for it in self.items:
                if type(it) is Tok:
                    out.extend(tok_cells(it))
                else:
                    out.append(it)
            self.items[:] = out
        return self

    def cells(self):
        """flat list of codes; concretises symbolic lengths by forking"""
        self._norm()
        if any(type(it) is Blob for it in self.items):
            out = []
            for it in self.items:
                if type(it) is Blob:
                    n = it.length
                    if type(n) is not int:
                        if n.hi is None or n.hi > 4096:
                            raise Unsupported('expanding a blob of unbounded symbolic length')
                        n = V.concretize(n, 4096)
                    out.extend(it.cell(i) for i in range(n))
                else:
                    out.append(it)
            self.items[:] = out
        return self.items

    def length(self):
        self._norm()
        n = 0
        c = 0
        for it in self.items:
            if type(it) is Blob:
                n = n + it.length
            else:
                c += 1
        return n + c

    def __len__(self):
        return V.concretize(self.length(), 70000)

    def __bool__(self):
        for it in self.items:
            if type(it) is not Blob:
                return True
        n = self.length()
        return bool(n > 0)

    def __iter__(self):
        if all(type(it) is not Blob for it in self._norm().items):
            for it in list(self.items) if self.kind != 'a' else self.items:
                yield self._elem(it)
            return
        rest = self
        i = 0
        # walk lazily: a symbolic length forks one element at a time
        items = list(self.items)
        for it in items:
            if type(it) is Blob:
                j = 0
                while it.length > j:
                    yield self._elem(it.cell(j))
                    j += 1
            else:
                yield self._elem(it)

    def _elem(self, it):
        if self.kind == 's':
            return mk('s', [it])
        return it

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        if type(i) is SymInt or type(i) is SymBool or isinstance(i, int):
            n = self.length()
            if i < 0:
                i = i + n
                if i < 0:
                    raise IndexError('index out of range')
            if not (i < n):
                raise IndexError('index out of range')
            if type(i) is SymInt and type(n) is int and n <= 512:
                cs = self.cells()
                t = mk_table(cs, i)
                return self._elem(t)
            l, r = split_at(self.items, i)
            it = r[0]
            k = 0
            while type(it) is Blob:
                if it.length > 0:
                    return self._elem(it.cell(0))
                k += 1
                it = r[k]
            return self._elem(it)
        if hasattr(i, '__index__'):
            return self[i.__index__()]
        raise TypeError('indices must be integers or slices, not %s' % type(i).__name__)

    def _slice(self, s):
        if s.start is None and s.stop is None and s.step is None:
            return mk(self.kind, self.items)
        step = s.step
        if step is not None and type(step) is not int:
            step = V.concretize(step)
        if step is not None and step != 1:
            cs = self.cells()
            a = None if s.start is None else V.concretize(s.start)
            b = None if s.stop is None else V.concretize(s.stop)
            return mk(self.kind, cs[a:b:step])
        if s.stop is None and type(s.start) is int and 0 <= s.start <= len(self.items) and any(type(it) is Tok for it in self.items) and \
                not any(type(it) in (Tok, Blob) for it in self.items[:s.start]):
            return mk(self.kind, self.items[s.start:])
        self._norm()
        n = self.length()
        a, b = s.start, s.stop
        a = 0 if a is None else _clamp(a, n)
        b = n if b is None else _clamp(b, n)
        if type(a) is int and type(b) is int and all(type(it) is not Blob for it in self.items):
            return mk(self.kind, self.items[a:b])
        if type(b) is not int or type(n) is not int or b != n:
            if s.stop is not None:
                if b <= a:
                    return mk(self.kind, [])
                l, r = split_at(self.items, b)
            else:
                l = self.items
        else:
            l = self.items
        if type(a) is int and a == 0:
            return mk(self.kind, l)
        l, r = split_at(l, a)
        return mk(self.kind, r)

    # ------------------------------------------------------------- mutation (bytearray)
    def _mut(self):
        if self.kind != 'a':
            raise TypeError("object does not support item assignment")

    def __setitem__(self, i, v):
        self._mut()
        cs = self.cells()
        if isinstance(i, slice):
            a = None if i.start is None else V.concretize(i.start)
            b = None if i.stop is None else V.concretize(i.stop)
            cs[slice(a, b, i.step)] = list(items_of(v)) if is_seq(v) else list(v)
            return
        i = V.concretize(i)
        if type(v) is SymInt or type(v) is SymBool:
            if v < 0 or v > 255:
                raise ValueError('byte must be in range(0, 256)')
            v = V.narrow(v, 0, 255) if type(v) is SymInt else V.b2i(v)
        elif not (0 <= v <= 255):
            raise ValueError('byte must be in range(0, 256)')
        cs[i] = v

    def __delitem__(self, i):
        self._mut()
        cs = self.cells()
        if isinstance(i, slice):
            del cs[slice(None if i.start is None else V.concretize(i.start),
                         None if i.stop is None else V.concretize(i.stop), i.step)]
        else:
            del cs[V.concretize(i)]

    def append(self, v):
        self._mut()
        if v < 0 or v > 255:
            raise ValueError('byte must be in range(0, 256)')
        self.items.append(V.narrow(v, 0, 255))

    def extend(self, v):
        self._mut()
        if is_seq(v):
            self.items.extend(items_of(v))
        else:
            for x in v:
                self.append(x)

    def pop(self, i=-1):
        self._mut()
        return self.cells().pop(i)

    def reverse(self):
        self._mut()
        self.cells().reverse()

    def insert(self, i, v):
        self._mut()
        self.cells().insert(i, v)

    def clear(self):
        self._mut()
        self.items[:] = []

    # ------------------------------------------------------------- concatenation
    def _compat(self, o):
        k = kind_of(o)
        if k is None:
            return False
        if (self.kind == 's') != (k == 's'):
            return False
        return True

    def __add__(self, o):
        if not self._compat(o):
            if kind_of(o) is not None:
                raise TypeError("can't concat %s to %s" % (type_name(o), type_name(self)))
            return NotImplemented
        return mk(self.kind, self.items + items_of(o))

    def __radd__(self, o):
        if not self._compat(o):
            if kind_of(o) is not None:
                raise TypeError("can't concat %s to %s" % (type_name(self), type_name(o)))
            return NotImplemented
        return mk(kind_of(o), items_of(o) + self.items)

    def __iadd__(self, o):
        if self.kind == 'a':
            self.extend(o)
            return self
        return self.__add__(o)

    def __mul__(self, n):
        if type(n) is SymInt:
            n = V.concretize(n)
        if not isinstance(n, int):
            return NotImplemented
        return mk(self.kind, self.items * n)
    __rmul__ = __mul__

    def __mod__(self, args):
        from . import models
        return models.m_format(self, args)

    # ------------------------------------------------------------- comparison
    def __eq__(self, o):
        if not self._compat(o):
            return False
        return seq_eq(self, o)

    def __ne__(self, o):
        return V.b_not(self.__eq__(o))

    def _lex(self, o, strict):
        if not self._compat(o):
            raise TypeError("'<' not supported between instances of %r and %r" % (type_name(self), type_name(o)))
        a, b = self.cells(), (o.cells() if type(o) is Rope else items_of(o))
        e = z3.BoolVal(len(a) < len(b) if strict else len(a) <= len(b))
        for x, y in reversed(list(zip(a, b))):
            xe, ye = ie(x), ie(y)
            e = z3.If(xe < ye, True, z3.If(xe > ye, False, e))
        return mk_bool(z3.simplify(e))

    def __lt__(self, o): return self._lex(o, True)
    def __le__(self, o): return self._lex(o, False)
    def __gt__(self, o): return V.b_not(self._lex(o, False))
    def __ge__(self, o): return V.b_not(self._lex(o, True))

    def __contains__(self, o):
        if type(o) is SymInt or (isinstance(o, int) and type(o) is not SymBool):
            if self.kind == 's':
                raise TypeError('in <string> requires string')
            return bool(V.b_or(*[_ceq(c, o) for c in self.cells()]))
        return not (self.find(o) < 0)

    # ------------------------------------------------------------- searching
    def _pat(self, sub):
        if type(sub) is SymInt or isinstance(sub, int):
            if self.kind == 's':
                raise TypeError('must be str, not int')
            return [sub]
        if not self._compat(sub):
            raise TypeError("a bytes-like object is required, not %r" % type_name(sub))
        return sub.cells() if type(sub) is Rope else items_of(sub)

    def find(self, sub, start=0, end=None):
        pat = self._pat(sub)
        cs = self.cells()
        st, en, _ = slice(V.concretize(start) if start is not None else None,
                          None if end is None else V.concretize(end)).indices(len(cs))
        if len(pat) == 1 and (type(pat[0]) is SymInt) and all(type(c) is int for c in cs[st:en]) and len(set(cs[st:en])) == en - st and en > st:
            return _table_find(cs[st:en], pat[0], st)
        for i in range(st, en - len(pat) + 1):
            if V.b_and(*[_ceq(cs[i + j], pat[j]) for j in range(len(pat))]):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        pat = self._pat(sub)
        cs = self.cells()
        st, en, _ = slice(start, end).indices(len(cs))
        for i in range(en - len(pat), st - 1, -1):
            if V.b_and(*[_ceq(cs[i + j], pat[j]) for j in range(len(pat))]):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def count(self, sub, start=None, end=None):
        pat = self._pat(sub)
        cs = self.cells()[start:end]
        if len(pat) == 1:
            n = 0
            for c in cs:
                e = _ceq(c, pat[0])
                n = n + (V.b2i(e) if type(e) is SymBool else int(bool(e)))
            return n
        n = i = 0
        while i + len(pat) <= len(cs):
            if V.b_and(*[_ceq(cs[i + j], pat[j]) for j in range(len(pat))]):
                n += 1
                i += len(pat)
            else:
                i += 1
        return n

    def startswith(self, pre, start=None, end=None):
        if start is not None or end is not None:
            t = self[start:end]
            return t.startswith(pre)
        if isinstance(pre, tuple):
            return any(bool(self.startswith(x)) for x in pre)
        if not self._compat(pre):
            raise TypeError('startswith first arg must be %s, not %s' % (type_name(self), type_name(pre)))
        if type(pre) is not Rope and len(pre) == 0:
            return True
        n = V_len(pre)
        if not (self.length() >= n):
            return False
        return seq_eq(self[0:n], pre)

    def endswith(self, suf, start=None, end=None):
        if start is not None or end is not None:
            return self[start:end].endswith(suf)
        if isinstance(suf, tuple):
            return any(bool(self.endswith(x)) for x in suf)
        if not self._compat(suf):
            raise TypeError('endswith first arg must be %s' % type_name(self))
        n = V_len(suf)
        m = self.length()
        if not (m >= n):
            return False
        return seq_eq(self[m - n:], suf)

    # ------------------------------------------------------------- stripping
    def _chars(self, chars):
        if chars is None:
            return [9, 10, 11, 12, 13, 32] + ([28, 29, 30, 31, 0x85, 0xa0] if self.kind == 's' else [])
        return chars.cells() if type(chars) is Rope else items_of(chars)

    def _strip(self, chars, left, right):
        ch = self._chars(chars)
        if any(type(it) is Tok for it in self.items) and all(type(c) is int for c in ch):
            # tokens are made of known kinds of characters: all or none of them may be stripped
            rel = [_tok_in(it, ch) for it in self.items if type(it) is Tok]
            cs = self._atoms() if all(r is not None for r in rel) else self.cells()
        else:
            cs = self.cells()
        a, b = 0, len(cs)
        hit = lambda x: _tok_in(x, ch) if type(x) is Tok else V.b_or(*[_ceq(x, c) for c in ch])
        if left:
            while a < b and hit(cs[a]):
                a += 1
        if right:
            while b > a and hit(cs[b - 1]):
                b -= 1
        return mk(self.kind, cs[a:b])

    def strip(self, chars=None): return self._strip(chars, 1, 1)
    def lstrip(self, chars=None): return self._strip(chars, 1, 0)
    def rstrip(self, chars=None): return self._strip(chars, 0, 1)

    # ------------------------------------------------------------- splitting / joining
    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, curr = [], []
            ws = self._chars(None)
            for c in self._atoms():
                if type(c) is not Tok and V.b_or(*[_ceq(c, w) for w in ws]):
                    if curr:
                        out.append(mk(self.kind, curr))
                    curr = []
                else:
                    curr.append(c)
            if curr:
                out.append(mk(self.kind, curr))
            return out
        pat = self._pat(sep)
        if not pat:
            raise ValueError('empty separator')
        if len(pat) != 1:
            cs = self.cells()
            out = []
            i = st = 0
            while i + len(pat) <= len(cs):
                if (maxsplit < 0 or len(out) < maxsplit) and \
                        V.b_and(*[_ceq(cs[i + j], pat[j]) for j in range(len(pat))]):
                    out.append(mk(self.kind, cs[st:i]))
                    i += len(pat)
                    st = i
                else:
                    i += 1
            out.append(mk(self.kind, cs[st:]))
            return out
        out, curr = [], []
        ch = pat[0]
        digit = type(ch) is not int or 48 <= ch <= 57 or ch == 45 or 97 <= ch <= 102
        for c in (self.cells() if digit else self._atoms()):
            if type(c) is not Tok and (maxsplit < 0 or len(out) < maxsplit) and _ceq(c, ch):
                out.append(mk(self.kind, curr))
                curr = []
            else:
                curr.append(c)
        out.append(mk(self.kind, curr))
        return out

    def _atoms(self):
        if any(type(it) is Blob for it in self.items):
            return self.cells()
        return list(self.items)

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        i = self.rfind(sep)
        if maxsplit != 1:
            raise Unsupported('rsplit')
        if i < 0:
            return [self]
        return [self[:i], self[i + V_len(sep):]]

    def partition(self, sep):
        i = self.find(sep)
        e = mk(self.kind, [])
        if i < 0:
            return (self, e, e)
        return (self[:i], sep, self[i + V_len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        e = mk(self.kind, [])
        if i < 0:
            return (e, e, self)
        return (self[:i], sep, self[i + V_len(sep):])

    def splitlines(self, keepends=False):
        raise Unsupported('splitlines')

    def join(self, it):
        return seq_join(self, it)

    def replace(self, old, new, count=-1):
        pat = self._pat(old)
        if not pat:
            raise Unsupported('replace empty')
        nw = items_of(new)
        cs = self.cells()
        out = []
        i = n = 0
        while i < len(cs):
            if i + len(pat) <= len(cs) and (count < 0 or n < count) and \
                    V.b_and(*[_ceq(cs[i + j], pat[j]) for j in range(len(pat))]):
                out.extend(nw)
                i += len(pat)
                n += 1
            else:
                out.append(cs[i])
                i += 1
        return mk(self.kind, out)

    # ------------------------------------------------------------- conversions
    def encode(self, enc='utf-8', errors='strict'):
        if self.kind != 's':
            raise AttributeError("'bytes' object has no attribute 'encode'")
        e = enc.lower().replace('_', '-')
        if e in ('hex',):
            raise LookupError('hex is not a text encoding')
        lim = {'ascii': 128, 'us-ascii': 128, 'latin-1': 256, 'latin1': 256, 'iso-8859-1': 256, 'utf-8': 128, 'utf8': 128}.get(e)
        if lim is None:
            raise Unsupported('encode(%s)' % enc)
        out = []
        for it in self._norm().items:
            if type(it) is Blob:
                if it.hi >= lim:
                    raise Unsupported('encode of a blob')
                out.append(it)
                continue
            if it < lim:
                out.append(V.narrow(it, 0, lim - 1) if type(it) is SymInt else it)
            elif e in ('utf-8', 'utf8'):
                if type(it) is SymInt:
                    if it < 0x800:
                        out.append(V.narrow(it // 64 + 0xc0, 0xc2, 0xdf))
                        out.append(V.narrow(it % 64 + 0x80, 0x80, 0xbf))
                    else:
                        raise Unsupported('utf-8 encode beyond two bytes')
                else:
                    out.extend(chr(it).encode('utf-8'))
            else:
                raise UnicodeEncodeError(enc, '?', 0, 1, 'ordinal not in range(%d)' % lim)
        return mk('b', out)

    def decode(self, enc='utf-8', errors='strict'):
        if self.kind == 's':
            raise AttributeError("'str' object has no attribute 'decode'")
        e = enc.lower().replace('_', '-')
        if e == 'hex':
            raise LookupError("'hex' is not a text encoding; use codecs.decode() to handle arbitrary codecs")
        lim = {'ascii': 128, 'us-ascii': 128, 'latin-1': 256, 'latin1': 256, 'iso-8859-1': 256, 'utf-8': 128, 'utf8': 128}.get(e)
        if lim is None:
            raise Unsupported('decode(%s)' % enc)
        out = []
        for it in self.items:
            if type(it) is Blob:
                if it.hi >= lim:
                    raise Unsupported('decode of a blob as %s' % enc)
                out.append(it)
                continue
            if lim == 256 or it < lim:
                out.append(it)
            elif errors == 'ignore':
                continue
            elif e in ('utf-8', 'utf8'):
                # multi-byte sequences are outside the encoding: concretise
                cs = [V.concretize(c) for c in self.cells()]
                return bytes(cs).decode(enc, errors)
            else:
                raise UnicodeDecodeError(enc, b'?', 0, 1, 'ordinal not in range(%d)' % lim)
        return mk('s', out)

    def hex(self, *a):
        if self.kind == 's':
            raise AttributeError('hex')
        if a:
            raise Unsupported('hex with separator')
        return hexlify(self, 's')

    def tobytes(self):
        return mk('b', self.items)

    def _mapchar(self, f, provf):
        out = []
        for c in self.cells():
            if type(c) is int:
                out.append(f(c))
            else:
                r = provf(c)
                out.append(r)
        return mk(self.kind, out)

    def _case(self, lo, delta, conv):
        def sym(c):
            if c.prov and c.prov[0] == 'hexd':
                up = delta < 0
                return hexchar(c.prov[1], up)
            if c.hi is None or c.hi > 127:
                if not (c < 128):
                    if self.kind == 'b':
                        return c
                    raise Unsupported('case mapping of non-ASCII characters')
            e = c.expr
            return mk_int(z3.If(z3.And(e >= lo, e <= lo + 25), e + delta, e), 0, 255)
        return self._mapchar(lambda c: conv(c), sym)

    def upper(self):
        return self._case(97, -32, lambda c: ord(chr(c).upper()) if c < 128 else c)

    def lower(self):
        return self._case(65, 32, lambda c: ord(chr(c).lower()) if c < 128 else c)

    def _all(self, pred):
        cs = self.cells()
        if not cs:
            return False
        return bool(V.b_and(*[pred(c) for c in cs]))

    def isdigit(self):
        return self._all(lambda c: V.b_and(c >= 48, c <= 57))
    isdecimal = isnumeric = isdigit

    def isalnum(self):
        return self._all(lambda c: V.b_or(V.b_and(c >= 48, c <= 57), V.b_and(c >= 65, c <= 90), V.b_and(c >= 97, c <= 122)))

    def isalpha(self):
        return self._all(lambda c: V.b_or(V.b_and(c >= 65, c <= 90), V.b_and(c >= 97, c <= 122)))

    def isspace(self):
        return self._all(lambda c: V.b_or(*[_ceq(c, w) for w in self._chars(None)]))

    def _hex_padded(self, n):
        """the digits of a lone number in hexadecimal, filled with zeros to n, when it fits"""
        its = self.items
        if len(its) == 1 and type(its[0]) is Tok and its[0].kind == 'hex' and type(n) is int and 0 < n <= 600:
            v = its[0].val
            if (type(v.hi) is int and v.hi < 16 ** n) or v < 16 ** n:
                out = []
                for c in V.int_cells(v, (n + 1) // 2):
                    out += list(nibbles(c))
                return mk(self.kind, [hexchar(d) for d in out[len(out) - n:]])
        return None

    def rjust(self, n, fill=None):
        if fill is not None and items_of(fill)[0] == 48:
            r = self._hex_padded(n)
            if r is not None:
                return r
        cs = self.cells()
        f = (32 if fill is None else items_of(fill)[0])
        return mk(self.kind, [f] * (n - len(cs)) + cs)

    def ljust(self, n, fill=None):
        cs = self.cells()
        f = (32 if fill is None else items_of(fill)[0])
        return mk(self.kind, cs + [f] * (n - len(cs)))

    def zfill(self, n):
        r = self._hex_padded(n)
        if r is not None:
            return r
        cs = self.cells()
        if cs and (type(cs[0]) is not int or cs[0] in (43, 45)):
            if V.b_or(_ceq(cs[0], 43), _ceq(cs[0], 45)):
                raise Unsupported('zfill with sign')
        return mk(self.kind, [48] * (n - len(cs)) + cs)

    def translate(self, *a):
        raise Unsupported('translate')

    def format(self, *a, **k):
        raise Unsupported('format on a symbolic template')

    def title(self): raise Unsupported('title')
    def swapcase(self): raise Unsupported('swapcase')


def type_name(o):
    k = kind_of(o)
    return {'b': 'bytes', 's': 'str', 'a': 'bytearray'}.get(k, type(o).__name__)


def V_len(x):
    return x.length() if type(x) is Rope else len(x)


def _clamp(a, n):
    if type(a) is SymBool:
        a = V.b2i(a)
    if type(a) is not SymInt and not isinstance(a, int):
        a = a.__index__()
    if a < 0:
        a = a + n
        if a < 0:
            a = 0
        return a
    if type(a) is int and type(n) is int:
        return min(a, n)
    if a > n:
        return n
    return a


def split_at(items, pos):
    """split at 0 <= pos <= total; forks when the cut point is not determined"""
    left = []
    items = list(items)
    i = 0
    rem = pos
    while i < len(items):
        if type(rem) is int:
            if rem == 0:
                return left, items[i:]
        elif rem == 0:
            return left, items[i:]
        it = items[i]
        if type(it) is Blob:
            L = it.length
            if rem >= L:
                left.append(it)
                rem = rem - L
                i += 1
                continue
            left.append(it.sub(0, rem))
            return left, [it.sub(rem, L - rem)] + items[i + 1:]
        left.append(it)
        rem = rem - 1
        i += 1
    return left, []


def _ceq(a, b):
    if type(a) is SymInt:
        return a == b
    if type(b) is SymInt:
        return b == a
    return a == b


def seq_eq(a, b):
    """equality of two sequences as a SymBool (may fork on blob alignment)"""
    ta = type(a) is Rope and any(type(x) is Tok for x in a.items)
    tb = type(b) is Rope and any(type(x) is Tok for x in b.items)
    if ta or tb:
        A, B = items_of(a), items_of(b)
        if not any(type(x) is Blob for x in A) and not any(type(x) is Blob for x in B):
            # a token has at least one character
            if not tb and len(A) > len(B) or not ta and len(B) > len(A):
                return False
            if len(A) == len(B) and all(x is y or (type(x) is Tok and type(y) is Tok and x.kind == y.kind) or
                                        (type(x) is int and type(y) is int and x == y) for x, y in zip(A, B)) and \
                    sum(1 for x, y in zip(A, B) if type(x) is Tok and x is not y) <= 1:
                return V.b_and(*[x.val == y.val for x, y in zip(A, B) if type(x) is Tok and x is not y])
    A = list((a._norm().items if type(a) is Rope else items_of(a)))
    B = list((b._norm().items if type(b) is Rope else items_of(b)))
    ba = any(type(x) is Blob for x in A)
    bb = any(type(x) is Blob for x in B)
    if not ba and not bb:
        if len(A) != len(B):
            return False
        return _cells_eq(A, B)
    la, lb = V_len(a), V_len(b)
    le = la == lb
    if le is False:
        return False
    if le is not True and not bool(le):
        return False
    conds = []
    A.reverse()
    B.reverse()
    while A or B:
        if not A:
            # lengths agree, so what is left is empty
            break
        if not B:
            break
        x, y = A.pop(), B.pop()
        if type(x) is Blob or type(y) is Blob:
            if type(x) is not Blob:
                x, y = y, x
                A, B = B, A
            # x is a Blob
            if x.length == 0:
                B.append(y)
                continue
            if type(y) is not Blob:
                conds.append(_ceq(x.cell(0), y))
                A.append(x.sub(1, x.length - 1))
                continue
            if y.length == 0:
                A.append(x)
                continue
            if x.length == y.length:
                n = x.length
            elif x.length < y.length:
                n = x.length
                B.append(y.sub(n, y.length - n))
            else:
                n = y.length
                A.append(x.sub(n, x.length - n))
            if x.arr.eq(y.arr) and (x.off is y.off or z3.is_true(z3.simplify(ie(x.off) == ie(y.off)))):
                continue
            if type(n) is int and n <= 128:
                conds += [_ceq(x.cell(i), y.cell(i)) for i in range(n)]
            else:
                i = z3.Int(_cur().fresh('qi'))
                conds.append(SymBool(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ie(n)),
                             z3.Select(x.arr, ie(x.off) + i) == z3.Select(y.arr, ie(y.off) + i)))))
            continue
        c = _ceq(x, y)
        if c is False:
            return False
        conds.append(c)
    return V.b_and(*conds)


def _cells_eq(A, B):
    conds = []
    for x, y in zip(A, B):
        if x is y:
            continue
        if type(x) is int and type(y) is int:
            if x != y:
                return False
            continue
        # the same hex digit?
        px = x.prov if type(x) is SymInt else None
        py = y.prov if type(y) is SymInt else None
        if px and py and px[0] == py[0] == 'hexd' and px[2] == py[2]:
            c = _ceq(px[1], py[1])
        else:
            c = _ceq(x, y)
        if c is False:
            return False
        if c is not True:
            conds.append(c)
    return V.b_and(*conds)


def seq_join(sep, it):
    out = []
    s = items_of(sep)
    k = kind_of(sep)
    first = True
    for x in it:
        kx = kind_of(x)
        if kx is None or (kx == 's') != (k == 's'):
            raise TypeError('sequence item: expected %s instance, %s found' % (type_name(sep), type_name(x)))
        if not first:
            out.extend(s)
        first = False
        out.extend(items_of(x))
    return mk(k, out)


# ---------------------------------------------------------------- tables
def mk_table(tab, idx):
    """tab[idx] for a list of ints/cells and a symbolic in-range index"""
    n = len(tab)
    p = _cur()
    if n == 256:
        from . import gf2
        r = gf2.lookup(tab, idx)
        if r is not None:
            return r
    lo, hi = max(idx.lo or 0, 0), n - 1 if idx.hi is None else min(idx.hi, n - 1)
    if idx.prov and idx.prov[0] == 'tab' and all(type(c) is int for c in tab):
        # composition of two tables: tab[ t2[j] ]
        t2, j = idx.prov[1], idx.prov[2]
        if all(0 <= v < n for v in t2):
            comp = tuple(tab[v] for v in t2)
            if comp == tuple(range(len(comp))):
                return j
            return mk_table(list(comp), j)
    if all(type(c) is int for c in tab):
        key = ('tab', tuple(tab), idx.expr.get_id())
        m = p.memo.get(key)
        if m is not None:
            return m[0]
        sub = tab[lo:hi + 1]
        if len(set(sub)) == 1:
            return sub[0]
        # piecewise-affine runs
        runs = []
        s = lo
        for i in range(lo + 1, hi + 2):
            if i > hi or tab[i] - i != tab[s] - s:
                runs.append((s, i - 1, tab[s] - s))
                s = i
        if len(runs) > 64:
            r = _big_table(tuple(tab), idx, lo, hi)
        else:
            e = idx.expr + runs[-1][2]
            for (a, b, d) in reversed(runs[:-1]):
                e = z3.If(idx.expr <= b, idx.expr + d, e)
            nm = z3.Int(p.fresh('t'))
            p.defsym(nm, nm == e, nm >= min(sub), nm <= max(sub))
            r = nm
        res = SymInt(r, min(sub), max(sub), prov=('tab', tuple(tab), idx))
        p.memo[key] = (res, idx.expr)
        return res
    e = ie(tab[hi])
    for i in range(hi - 1, lo - 1, -1):
        e = z3.If(idx.expr == i, ie(tab[i]), e)
    rs = [V.rng(tab[i]) for i in range(lo, hi + 1)]
    return mk_int(e, V._min(*[r[0] for r in rs]), V._max(*[r[1] for r in rs]))


def _big_table(tab, idx, lo, hi):
    p = _cur()
    nm = z3.Int(p.fresh('t'))
    # binary decision tree over the index
    def tree(a, b):
        if a == b:
            return z3.IntVal(tab[a])
        m = (a + b) // 2
        return z3.If(idx.expr <= m, tree(a, m), tree(m + 1, b))
    p.defsym(nm, nm == tree(lo, hi))
    return nm


def _table_find(tab, c, base):
    """position of symbolic code c in a list of distinct known codes (-1 when absent)"""
    if c.prov and c.prov[0] == 'tab':
        t2, j = c.prov[1], c.prov[2]
        pos = {v: i for i, v in enumerate(tab)}
        lo, hi = max(j.lo or 0, 0), min(len(t2) - 1, j.hi if j.hi is not None else len(t2) - 1)
        if all(t2[i] in pos for i in range(lo, hi + 1)):
            comp = [pos.get(v, 0) + base for v in t2]
            if all(comp[i] == i for i in range(lo, hi + 1)):
                return j
            return mk_table(comp, j)
    present = V.b_or(*[_ceq(c, t) for t in tab])
    if not present:
        return -1
    p = _cur()
    key = ('tfind', tuple(tab), c.expr.get_id())
    m = p.memo.get(key)
    if m is not None:
        return m[0] + base if base else m[0]
    nm = z3.Int(p.fresh('pos'))
    # c == tab[nm]
    order = sorted(range(len(tab)), key=lambda i: tab[i])
    runs = []
    s = 0
    for i in range(1, len(order) + 1):
        if i == len(order) or order[i] - tab[order[i]] != order[s] - tab[order[s]]:
            runs.append((tab[order[s]], tab[order[i - 1]], order[s] - tab[order[s]]))
            s = i
    e = c.expr + runs[-1][2]
    for (a, b, d) in reversed(runs[:-1]):
        e = z3.If(c.expr <= b, c.expr + d, e)
    p.defsym(nm, nm == e, nm >= 0, nm < len(tab))
    r = SymInt(nm, 0, len(tab) - 1)
    # remember the inverse so that tab[nm] is c again
    p.memo[('tab', tuple(tab), nm.get_id())] = (c, nm)
    p.memo[key] = (r, c.expr)
    return r + base if base else r


# ---------------------------------------------------------------- hexadecimal
def hexchar(nib, upper=False):
    if type(nib) is int:
        return ord(('0123456789ABCDEF' if upper else '0123456789abcdef')[nib])
    p = _cur()
    key = ('hexc', nib.expr.get_id(), upper)
    m = p.memo.get(key)
    if m is not None:
        return m[0]
    e = z3.If(nib.expr < 10, nib.expr + 48, nib.expr + (55 if upper else 87))
    z = z3.Int(p.fresh('hx'))          # named: sums of characters stay sums of bytes
    p.defsym(z, z == e, z >= 48, z <= (70 if upper else 102))
    r = V.byte_atom(SymInt(z, 48, 70 if upper else 102, prov=('hexd', nib, upper)))
    p.memo[key] = (r, nib.expr)
    return r


def nibbles(c):
    if type(c) is int:
        return c >> 4, c & 15
    if c.hi is not None and c.hi < 16:
        return 0, c
    q, r = V._divmod_const(c, 16)
    q = V.narrow(q, 0, 15)
    qi = q.expr.get_id() if type(q) is SymInt else ('c', q)
    _cur().memo[('nibs', qi, r.expr.get_id())] = (c, q, r)
    return q, r


def from_nibbles(a, b):
    if type(a) is int and type(b) is int:
        return a * 16 + b
    ai = a.expr.get_id() if type(a) is SymInt else ('c', a)
    bi = b.expr.get_id() if type(b) is SymInt else ('c', b)
    m = _cur().memo.get(('nibs', ai, bi))
    if m is not None:
        return m[0]
    r = V.narrow(a * 16 + b, 0, 255)
    if type(r) is SymInt:
        _cur().memo[('nibs', ai, bi)] = (r, a, b)
    return r


def hexlify(x, kind='b'):
    out = []
    for c in (x.cells() if type(x) is Rope else items_of(x)):
        q, r = nibbles(c)
        out.append(hexchar(q))
        out.append(hexchar(r))
    return mk(kind, out)


def hexval(c):
    """value of a hex digit code, or None when it is not one (forks)"""
    if type(c) is int:
        try:
            return int(chr(c), 16) if c < 128 and chr(c) in '0123456789abcdefABCDEF' else None
        except ValueError:
            return None
    if c.prov and c.prov[0] == 'hexd':
        return c.prov[1]
    e = c.expr
    ok = z3.Or(z3.And(e >= 48, e <= 57), z3.And(e >= 97, e <= 102), z3.And(e >= 65, e <= 70))
    if not _cur().branch(ok):
        return None
    return SymInt(z3.If(e <= 57, e - 48, z3.If(e <= 70, e - 55, e - 87)), 0, 15)


def unhexlify(x):
    import binascii
    cs = x.cells()
    if len(cs) % 2:
        raise binascii.Error('Odd-length string')
    out = []
    for i in range(0, len(cs), 2):
        a = hexval(cs[i])
        if a is None:
            raise binascii.Error('Non-hexadecimal digit found')
        b = hexval(cs[i + 1])
        if b is None:
            raise binascii.Error('Non-hexadecimal digit found')
        out.append(from_nibbles(a, b))
    return mk('b', out)


def parse_int(x, base=10):
    """int(x, base) for a symbolic text"""
    items = x.items
    if len(items) == 1 and type(items[0]) is Tok and items[0].kind == {10: 'dec', 16: 'hex'}.get(base):
        return items[0].val
    cs = x.cells()
    err = ValueError('invalid literal for int() with base %d' % base)
    if not cs:
        raise err
    digs = []
    shape = []
    for c in cs:
        if base == 16:
            v = hexval(c)
        elif base == 10:
            if type(c) is int:
                v = c - 48 if 48 <= c <= 57 else None
            elif V.b_and(c >= 48, c <= 57):
                v = c - 48
            else:
                v = None
        else:
            raise Unsupported('int() base %r' % base)
        if v is None:
            # anything that is not a plain digit: sign, space, underscore, x, other
            if type(c) is SymInt:
                if x.kind == 's' and not (c < 128):
                    raise Unsupported('int() of non-ASCII text')
                k = None
                for cand in (43, 45, 95, 32, 9, 10, 11, 12, 13, 28, 29, 30, 31, 120, 88):
                    if c == cand:
                        k = cand
                        break
                if k is None:
                    k = 33     # any other character is an error wherever it stands
                c = k
            shape.append(chr(c))
            digs.append(None)
        else:
            # placeholder digit: zero only matters after a base prefix
            if type(v) is int:
                shape.append('%x' % v)
            elif base == 16 and len(shape) == 0 or (shape and shape[-1] in '+-'):
                shape.append('0' if False else '1')
            else:
                shape.append('1')
            digs.append(v)
    text = ''.join(shape)
    # "0x" prefix only when the leading digit really is 0
    if base == 16 and any(s in 'xX' for s in shape):
        i = next(j for j, s in enumerate(shape) if s in 'xX')
        if i > 0 and digs[i - 1] is not None and type(digs[i - 1]) is not int:
            if digs[i - 1] == 0:
                shape[i - 1] = '0'
        text = ''.join(shape)
    raw = text if x.kind == 's' else text.encode('latin-1')
    try:
        int(raw, base)
    except ValueError:
        raise err
    ds = [d for d in digs if d is not None]
    if base == 10:
        m = _cur().memo.get(('decd',) + tuple(c.expr.get_id() if type(c) is SymInt else c for c in (cs[1:] if text[0] == '-' else cs)))
        if m is not None:
            return -m[0] if text[0] == '-' else m[0]
    if base == 16:
        if len(ds) % 2:
            ds = [0] + ds
        v = V.cells_int([from_nibbles(ds[i], ds[i + 1]) for i in range(0, len(ds), 2)])
    else:
        v = 0
        for d in ds:
            v = v * 10 + d
    return -v if '-' in text else v
