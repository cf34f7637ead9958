"""Models of the built-ins and C library functions the code under test calls.

__sx_call__ is the single entry point: instrumented code routes every call through it.
With no symbolic argument the real function runs.  With one, a model listed here runs;
functions written in Python run natively on the proxies; any other C function gets its
arguments concretised (recorded as an under-approximation).
"""
import binascii
import builtins
import hashlib
import hmac as _hmac
import io
import operator
import os
import struct
import types
import z3

from . import engine, values as V, rope as R
from .engine import Unsupported
from .values import SymInt, SymBool, SymFloat, mk_int, mk_bool, ie
from .rope import Rope, mk, items_of, is_seq

SYM = (SymInt, SymBool, SymFloat, Rope)
_symset = frozenset(SYM)


def _cur():
    return engine.CUR


def is_sym(x):
    return type(x) in _symset


def has_sym(x, depth=2):
    t = type(x)
    if t in _symset:
        return True
    if depth and (t is list or t is tuple or t is set or t is frozenset):
        for y in x:
            if has_sym(y, depth - 1):
                return True
    if depth and t is dict:
        for k, y in x.items():
            if type(k) in _symset or has_sym(y, depth - 1):
                return True
    return False


def concretize(x, note=None):
    t = type(x)
    if t is SymInt:
        return V.concretize(x)
    if t is SymBool:
        return bool(x)
    if t is SymFloat:
        raise Unsupported('concretising a symbolic real')
    if t is Rope:
        return conc_rope(x, note)
    if t is list:
        return [concretize(y, note) for y in x]
    if t is tuple:
        return tuple(concretize(y, note) for y in x)
    return x


def conc_rope(x, note=None):
    p = _cur()
    cs = x.cells()
    out = []
    for c in cs:
        if type(c) is SymInt:
            out.append(p.choose_value(c.expr))
        else:
            out.append(c)
    p.stats.concretised.append('sequence fixed to one model value (%s)' % (note or 'native call'))
    return mk(x.kind, out)


# ------------------------------------------------------------------ formatting
def fmt_int(v, conv, flags, width, prec):
    """items for %d / %x of v"""
    if type(v) is SymBool:
        v = V.b2i(v)
    if type(v) is not SymInt:
        s = ('%' + flags + (width or '') + ('.' + prec if prec else '') + conv) % v
        return [ord(c) for c in s]
    w = int(width) if width else 0
    zero = '0' in flags
    if prec:
        w, zero = max(w, int(prec)), True
    if conv in 'xX':
        neg = []
        if v < 0:
            neg = [45]
            v = -v
        n = None
        if not w and conv == 'x' and v.lo is not None and v.lo >= 0:
            return [R.Tok('hex', v)]
        if w and zero and v.hi is not None and v.hi < 16 ** w:
            n = w
        elif w and zero and v < 16 ** w:
            n = w
        if n is None:
            # number of significant digits
            n = 1
            while not (v < 16 ** n):
                n += 1
                if n > 600:
                    raise Unsupported('hex rendering too long')
        cs = V.int_cells(v, (n + 1) // 2)
        out = []
        for c in cs:
            q, r = R.nibbles(c)
            out += [q, r]
        out = out[len(out) - n:]
        out = [R.hexchar(d, conv == 'X') for d in out]
        pad = max(0, w - len(out) - len(neg))
        return (neg + [48] * pad + out) if zero else ([32] * pad + neg + out)
    if conv in 'diu':
        if not w:
            return [R.Tok('dec', v)]
        if v.lo is not None and v.lo >= 0 and v.hi is not None and v.hi < 10 ** w and zero:
            ds = []
            u = v
            for _ in range(w - 1):
                ds.append(u % 10 + 48)
                u = u // 10
            ds.append(u + 48)
            return [V.narrow(d, 48, 57) if type(d) is SymInt else d for d in reversed(ds)]
        cs = R.tok_cells(R.Tok('dec', v))
        pad = max(0, w - len(cs))
        return ([48] * pad + cs) if zero else ([32] * pad + cs)
    if conv == 'c':
        return [v]
    raise Unsupported('format %%%s of a symbolic int' % conv)


def m_str(x=''):
    t = type(x)
    if t is SymInt:
        return Rope('s', [R.Tok('dec', x)])
    if t is SymBool:
        return str(bool(x))
    if t is Rope:
        if x.kind == 's':
            return mk('s', x.items)
        return '<symbolic bytes>'
    if t is SymFloat:
        return '<symbolic float>'
    if t in (list, tuple, dict, set):
        return '<symbolic container>'
    return str(x)


def m_repr(x):
    t = type(x)
    if t is SymInt:
        return m_str(x)
    if t is SymBool:
        return str(bool(x))
    return '<symbolic>'


def fmt_text(x, kind):
    """items for %s"""
    t = type(x)
    if t is Rope:
        if kind == 's' and x.kind == 's':
            return list(x.items)
        if kind == 'b' and x.kind != 's':
            return list(x.items)
        if kind == 'b':
            raise TypeError('%b requires a bytes-like object')
        return [ord(c) for c in '<symbolic bytes>']
    if t in (SymInt, SymBool):
        return items_of(m_str(x))
    if t is SymFloat:
        return [ord(c) for c in '<symbolic float>']
    if kind == 'b':
        return list(b'%s' % x)
    if has_sym(x):
        return [ord(c) for c in '<symbolic container>']
    s = str(x) if not hasattr(type(x), '__str__') else call(str, x)
    return items_of(s)


import re
_spec = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', re.S)


def m_format(tmpl, args):
    kind = R.kind_of(tmpl)
    if type(tmpl) is Rope:
        if any(type(c) is not int for c in tmpl.cells()):
            # a symbolic template: no '%' may hide in it
            raise Unsupported('symbolic format template')
    text = tmpl if isinstance(tmpl, str) and type(tmpl) is not Rope else bytes(items_of(tmpl)).decode('latin-1')
    mapping = args if type(args) is dict else None
    if type(args) is not tuple:
        args = (args,)
    out = []
    pos = ai = 0
    for m in _spec.finditer(text):
        out += [ord(c) for c in text[pos:m.start()]]
        pos = m.end()
        name, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append(37)
            continue
        if name is not None:
            a = mapping[name]
        else:
            if width == '*':
                width = str(concretize(args[ai]))
                ai += 1
            if prec == '*':
                prec = str(concretize(args[ai]))
                ai += 1
            if ai >= len(args):
                raise TypeError('not enough arguments for format string')
            a = args[ai]
            ai += 1
        if conv in 'sb':
            it = fmt_text(a, kind)
            if prec:
                it = mk(kind, it)[:int(prec)]
                it = items_of(it)
            if width:
                pad = int(width) - len(it)
                it = it + [32] * pad if '-' in flags else [32] * pad + it
            out += it
        elif conv in 'ra':
            out += items_of(m_repr(a) if has_sym(a) else repr(a))
        elif conv in 'dixXu':
            if not V.is_int(a):
                if type(a) is SymFloat:
                    a = a.to_int()
                elif is_seq(a):
                    raise TypeError('%%%s format: a real number is required, not %s' % (conv, R.type_name(a)))
            out += fmt_int(a, conv, flags, width, prec)
        elif conv == 'c':
            if type(a) is Rope:
                out += a.cells()
            else:
                out += fmt_int(a, 'c', '', None, None) if type(a) is SymInt else items_of(('%c' % a))
        elif conv in 'feg':
            if is_sym(a):
                out += [ord(c) for c in '<symbolic float>']
            else:
                out += [ord(c) for c in (m.group(0) % a)]
        else:
            raise Unsupported('format conversion %%%s' % conv)
    out += [ord(c) for c in text[pos:]]
    if mapping is None and ai < len(args) and not (len(args) == 1 and type(args[0]) is dict):
        raise TypeError('not all arguments converted during string formatting')
    return mk(kind, out)


_brace = re.compile(r'\{\{|\}\}|\{([^{}!:]*)(?:!([rsa]))?(?::([^{}]*))?\}')


def fmt_spec(v, spec):
    if not spec:
        return fmt_text(v, 's')
    m = re.match(r'^(?:(.)?([<>^=]))?([-+ ]?)(#?)(0?)(\d+)?(,?)(?:\.(\d+))?([bcdeEfFgGnosxX%]?)$', spec)
    if not m:
        raise Unsupported('format spec %r' % spec)
    fill, align, sign, alt, zero, width, comma, prec, conv = m.groups()
    if not is_sym(v):
        return [ord(c) for c in format(v, spec)]
    if type(v) is Rope:
        it = list(v.items)
        if width:
            pad = [ord(fill or ' ')] * (int(width) - len(v.cells()))
            it = pad + v.cells() if align == '>' else v.cells() + pad
        return it
    if comma or alt or (conv not in 'dxX'):
        if comma and conv in 'd':
            raise Unsupported('comma format')
        if conv == 'b' or conv == 'o' or alt:
            raise Unsupported('format spec %r' % spec)
    if fill == '0' and align in '>=':
        zero = '0'
    return fmt_int(v, conv or 'd', zero, width, None)


def m_strformat(tmpl, args, kw):
    out = []
    pos = 0
    auto = 0
    for m in _brace.finditer(tmpl):
        out += [ord(c) for c in tmpl[pos:m.start()]]
        pos = m.end()
        g = m.group(0)
        if g == '{{' or g == '}}':
            out.append(ord(g[0]))
            continue
        name, conv, spec = m.groups()
        base = re.match(r'^(\w*)(.*)$', name)
        key, rest = base.groups()
        if rest:
            raise Unsupported('format field %r' % name)
        if key == '':
            v = args[auto]
            auto += 1
        elif key.isdigit():
            v = args[int(key)]
        else:
            v = kw[key]
        if conv == 'r':
            out += items_of(m_repr(v) if has_sym(v) else repr(v))
        else:
            out += fmt_spec(v, spec)
    out += [ord(c) for c in tmpl[pos:]]
    return mk('s', out)


def fstr(parts):
    """parts: list of str | (value, conversion, spec)"""
    out = []
    for p in parts:
        if type(p) is str:
            out += [ord(c) for c in p]
            continue
        v, conv, spec = p
        if conv == ord('r'):
            out += items_of(m_repr(v) if has_sym(v) else repr(v))
        elif is_sym(v):
            out += fmt_spec(v, spec)
        elif has_sym(v):
            out += [ord(c) for c in '<symbolic container>']
        else:
            t = format(v, spec or '') if conv == -1 else format(str(v), spec or '')
            out += items_of(t)
    return mk('s', out)


# ------------------------------------------------------------------ struct
_sz = dict(b=1, B=1, h=2, H=2, i=4, I=4, l=4, L=4, q=8, Q=8, c=1, s=1, x=1)
_native = dict(l=8, L=8)


def _fmt_parse(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = '@'
    if fmt and fmt[0] in '@=<>!':
        order, fmt = fmt[0], fmt[1:]
    if order == '@' and any(c not in 'bBcsx0123456789' for c in fmt):
        if len([c for c in fmt if c.isalpha()]) > 1:
            raise Unsupported('native struct alignment %r' % fmt)
    big = order in '>!'
    out = []
    for n, c in re.findall(r'(\d*)([a-zA-Z?])', fmt):
        out.append((n, c))
    return big, out, order


def m_pack(fmt, *args):
    big, items, order = _fmt_parse(fmt)
    out = []
    ai = 0
    for n, c in items:
        if c == 's':
            k = int(n or 1)
            a = args[ai]
            ai += 1
            if R.kind_of(a) not in ('b', 'a'):
                raise struct.error("argument for 's' must be a bytes object")
            L = R.V_len(a)
            if L < k:
                cs = a.cells() if type(a) is Rope else items_of(a)
                out += list(cs) + [0] * (k - len(cs))
            else:
                out += items_of(a[:k])
            continue
        if c == 'x':
            out += [0] * int(n or 1)
            continue
        for _ in range(int(n) if n else 1):
            if ai >= len(args):
                raise struct.error('pack expected more items')
            a = args[ai]
            ai += 1
            if c == 'c':
                if R.kind_of(a) != 'b' or R.V_len(a) != 1:
                    raise struct.error('char format requires a bytes object of length 1')
                out += items_of(a)
                continue
            if c == '?':
                a = V.b2i(a) if type(a) is SymBool else int(bool(a))
                out.append(a)
                continue
            size = (_native.get(c, _sz.get(c)) if order == '@' else _sz.get(c))
            if size is None:
                raise Unsupported('struct format %r' % c)
            if type(a) is SymBool:
                a = V.b2i(a)
            if type(a) is not SymInt:
                if not isinstance(a, int) and not hasattr(a, '__index__'):
                    raise struct.error('required argument is not an integer')
                out += list(struct.pack((order if order != '@' else '@') + c, a))
                continue
            lo, hi = (0, 256 ** size - 1) if c.isupper() else (-(256 ** size) // 2, 256 ** size // 2 - 1)
            if not (a >= lo) or not (a <= hi):
                raise struct.error('argument out of range')
            if c.islower():
                a = _unsigned(a, size)
            cs = V.int_cells(a, size)
            out += cs if big else cs[::-1]
    if ai != len(args):
        raise struct.error('pack expected %d items for packing (got %d)' % (ai, len(args)))
    return mk('b', out)


def _unsigned(a, size):
    """two's complement image, remembering the signed value"""
    if a.lo is not None and a.lo >= 0:
        return a
    p = _cur()
    key = ('unsg', a.expr.get_id(), size)
    m = p.memo.get(key)
    if m is not None:
        return m[0]
    u = z3.Int(p.fresh('u'))
    p.defsym(u, u == z3.If(a.expr < 0, a.expr + 256 ** size, a.expr))
    r = SymInt(u, 0, 256 ** size - 1)
    V.int_cells(r, size)
    p.memo[key] = (r, a.expr)
    p.memo[('sgn', u.get_id(), size)] = (a, u)
    return r


def _signed(u, size):
    if type(u) is not SymInt:
        return u - 256 ** size if u >= 256 ** size // 2 else u
    m = _cur().memo.get(('sgn', u.expr.get_id(), size))
    if m is not None:
        return m[0]
    half = 256 ** size // 2
    if u.hi is not None and u.hi < half:
        return u
    cs = V._cells_of(u)
    r = mk_int(z3.If(u.expr >= half, u.expr - 2 * half, u.expr), -half, half - 1,
               prov=None if cs is None else ('tw', tuple([0] * (size - len(cs)) + cs)))
    if type(r) is SymInt:
        _cur().memo[('unsg', r.expr.get_id(), size)] = (u, r.expr)
    return r


def m_unpack(fmt, data):
    big, items, order = _fmt_parse(fmt)
    total = 0
    for n, c in items:
        size = (_native.get(c, _sz.get(c)) if order == '@' else _sz.get(c, 1))
        if size is None:
            raise Unsupported('struct format %r' % c)
        total += size * int(n or 1) if c != 's' else int(n or 1)
    if R.V_len(data) != total:
        raise struct.error('unpack requires a buffer of %d bytes' % total)
    cs = Rope('b', list(items_of(data))).cells()
    out = []
    pos = 0
    for n, c in items:
        if c == 's':
            k = int(n or 1)
            out.append(mk('b', cs[pos:pos + k]))
            pos += k
            continue
        if c == 'x':
            pos += int(n or 1)
            continue
        for _ in range(int(n) if n else 1):
            size = (_native.get(c, _sz.get(c)) if order == '@' else _sz.get(c, 1))
            b = cs[pos:pos + size]
            pos += size
            if c == 'c':
                out.append(mk('b', b))
                continue
            v = V.cells_int(b if big else b[::-1])
            if c == '?':
                v = v != 0
            elif c.islower():
                v = _signed(v, size)
            out.append(v)
    return tuple(out)


def m_unpack_from(fmt, data, offset=0):
    n = struct.calcsize(fmt)
    if R.V_len(data) < offset + n:
        raise struct.error('unpack_from requires a buffer of at least %d bytes' % n)
    return m_unpack(fmt, data[offset:offset + n])


# ------------------------------------------------------------------ hashes (uninterpreted)
HASH_LEN = {'md5': 16, 'sha1': 20, 'sha224': 28, 'sha256': 32, 'sha384': 48, 'sha512': 64, 'ripemd160': 20}
BLOCK_LEN = {'md5': 64, 'sha1': 64, 'sha224': 64, 'sha256': 64, 'sha384': 128, 'sha512': 128, 'ripemd160': 64}


def uf_bytes(key, n, parts):
    """n output bytes of an uninterpreted function `key` of the sequences `parts`
    (congruent: equal arguments give equal outputs)"""
    p = _cur()
    tab = p.hash_tab.setdefault(key, [])
    for (ps, out) in tab:
        if len(ps) == len(parts) and all(_same(a, b) for a, b in zip(ps, parts)):
            return out
    cells = []
    for i in range(n):
        b = z3.Int(p.fresh(key))
        p.defsym(b, b >= 0, b <= 255)
        cells.append(V.byte_atom(SymInt(b, 0, 255)))
    out = Rope('b', cells)
    for (ps, o) in tab:
        if len(ps) != len(parts):
            continue
        eq = V.b_and(*[_eqq(a, b) for a, b in zip(ps, parts)])
        if eq is False:
            continue
        oe = V.b_and(*[x == y for x, y in zip(o.items, cells)])
        cond = V.b_implies(eq, oe)
        if cond is not True:
            ce = cond.expr if type(cond) is SymBool else z3.BoolVal(bool(cond))
            for c in cells:
                p.defsym(c.expr, ce)
    tab.append((tuple(parts), out))
    return out


def _known(i):
    if type(i) is SymInt:
        i = V.canon(i)
        if type(i) is SymInt:
            lo, hi = i.lo, i.hi
            if lo is not None and lo == hi:
                return lo
    return i


def _same(a, b):
    """certainly the same value, by structure alone"""
    if a is b:
        return True
    if is_seq(a) and is_seq(b):
        x, y = items_of(a), items_of(b)
        if len(x) != len(y):
            return False
        for i, j in zip(x, y):
            if i is j:
                continue
            i, j = _known(i), _known(j)
            if type(i) is int and type(j) is int:
                if i != j:
                    return False
            elif type(i) is SymInt and type(j) is SymInt:
                if not i.expr.eq(j.expr):
                    return False
            elif type(i) is R.Blob and type(j) is R.Blob:
                if not (i.arr.eq(j.arr) and ie(i.off).eq(ie(j.off)) and ie(i.length).eq(ie(j.length))):
                    return False
            else:
                return False
        return True
    if type(a) is SymInt and type(b) is SymInt:
        return a.expr.eq(b.expr)
    if is_sym(a) or is_sym(b):
        return False
    return a == b


def _eqq(a, b):
    """equality condition for congruence (no forking for fixed-length arguments)"""
    if is_seq(a) and is_seq(b):
        x, y = items_of(a), items_of(b)
        if any(type(i) is R.Blob for i in x + y):
            la, lb = R.V_len(a), R.V_len(b)
            if type(la) is int and type(lb) is int and la != lb:
                return False
            return R.seq_eq(Rope('b', list(x)), Rope('b', list(y)))
        if len(x) != len(y):
            return False
        return R._cells_eq(x, y)
    return a == b


def real_hash(name, data):
    return hashlib.new(name, data).digest()


class SymHash(object):
    def __init__(self, name, data=b''):
        self.name = name
        self.buf = data if data != b'' or is_sym(data) else b''
        self.digest_size = HASH_LEN[name]
        self.block_size = BLOCK_LEN[name]

    def update(self, d):
        if R.kind_of(d) == 's' or R.kind_of(d) is None:
            raise TypeError('Strings must be encoded before hashing')
        d = mk('b', items_of(d))
        self.buf = self.buf + d

    def copy(self):
        return SymHash(self.name, self.buf)

    def digest(self):
        if type(self.buf) is not Rope:
            d = real_hash(self.name, self.buf)
            if _cur() is not None:
                _link_concrete(self.name, (self.buf,), d)
            return d
        return uf_bytes(self.name, HASH_LEN[self.name], (self.buf,))

    def hexdigest(self):
        return R.hexlify(self.digest(), 's')


def _link_concrete(key, parts, out):
    """a real hash value the uninterpreted function must agree with"""
    p = _cur()
    tab = p.hash_tab.setdefault(key, [])
    for (ps, o) in tab:
        if len(ps) == len(parts) and all(_same(a, b) for a, b in zip(ps, parts)):
            for x, y in zip(o.items, out):
                if type(x) is SymInt:
                    p.add(x.expr == y)
            return
    o2 = Rope('b', list(out))
    for (ps, o) in tab:
        eq = V.b_and(*[_eqq(a, b) for a, b in zip(ps, parts)])
        if eq is False:
            continue
        cond = V.b_implies(eq, R._cells_eq(list(o.items), list(out)))
        if cond is not True:
            ce = cond.expr if type(cond) is SymBool else z3.BoolVal(bool(cond))
            for c in o.items:
                if type(c) is SymInt:
                    p.defsym(c.expr, ce)
    tab.append((tuple(parts), o2))


class SymHmac(object):
    def __init__(self, key, msg=None, digestmod=None):
        if isinstance(digestmod, str):
            self.name = digestmod
        else:
            try:
                self.name = digestmod().name
            except SystemError:
                raise Unsupported('hmac digestmod')
        self.name = self.name.lower()
        self.key = key
        self.buf = b''
        if msg is not None:
            self.update(msg)
        self.digest_size = HASH_LEN[self.name]

    def update(self, d):
        if R.kind_of(d) == 's' or R.kind_of(d) is None:
            raise TypeError('Strings must be encoded before hashing')
        self.buf = self.buf + mk('b', items_of(d))

    def copy(self):
        h = SymHmac.__new__(SymHmac)
        h.__dict__.update(self.__dict__)
        return h

    def digest(self):
        if type(self.key) is not Rope and type(self.buf) is not Rope:
            d = _hmac.new(bytes(self.key), bytes(self.buf), self.name).digest()
            if _cur() is not None:
                _link_concrete('hmac-' + self.name, (self.key, self.buf), d)
            return d
        return uf_bytes('hmac-' + self.name, HASH_LEN[self.name], (self.key, self.buf))

    def hexdigest(self):
        return R.hexlify(self.digest(), 's')


def mk_hash(name):
    def f(data=b'', **kw):
        if R.kind_of(data) == 's':
            raise TypeError('Strings must be encoded before hashing')
        return SymHash(name, mk('b', items_of(data)))
    return f


def m_hashnew(name, data=b'', **kw):
    return mk_hash(name.lower())(data)


# ------------------------------------------------------------------ BytesIO
class SymIO(object):
    def __init__(self, data=b''):
        self.data = mk('b', items_of(data))
        self.pos = 0

    def read(self, n=-1):
        if n is None or (type(n) is int and n < 0):
            r = self.data[self.pos:]
        else:
            if n < 0:
                r = self.data[self.pos:]
            else:
                r = self.data[self.pos:self.pos + n]
        self.pos = self.pos + R.V_len(r)
        return r
    read1 = read

    def write(self, b):
        n = R.V_len(b)
        L = R.V_len(self.data)
        if self.pos == L:
            self.data = self.data + b
        else:
            self.data = self.data[:self.pos] + b + self.data[self.pos + n:]
        self.pos = self.pos + n
        return n

    def seek(self, off, whence=0):
        if whence == 0:
            self.pos = off
        elif whence == 1:
            self.pos = self.pos + off
        else:
            self.pos = R.V_len(self.data) + off
        return self.pos

    def tell(self):
        return self.pos

    def getvalue(self):
        return self.data

    def getbuffer(self):
        return self.data

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# ------------------------------------------------------------------ scalar built-ins
_marker = object()


def m_int(x=0, base=_marker):
    t = type(x)
    if base is not _marker:
        if type(base) is SymInt:
            base = V.concretize(base)
        if t is Rope:
            return R.parse_int(x, base)
        if t in (SymInt, SymBool, SymFloat):
            raise TypeError("int() can't convert non-string with explicit base")
        return int(x, base)
    if t is SymInt:
        return x
    if t is SymBool:
        return V.b2i(x)
    if t is SymFloat:
        return x.to_int()
    if t is Rope:
        return R.parse_int(x, 10)
    return int(x)


def m_float(x=0.0):
    t = type(x)
    if t in (SymInt, SymBool):
        return SymFloat(z3.ToReal(ie(x)))
    if t is SymFloat:
        return x
    if t is Rope:
        raise Unsupported('float of symbolic text')
    return float(x)


def m_bool(x=False):
    if type(x) is SymBool:
        return x
    if type(x) is SymInt:
        return x != 0
    return bool(x)


def m_len(x):
    if type(x) is Rope:
        return x.length()
    return len(x)


def m_ord(c):
    if type(c) is Rope:
        n = c.length()
        if n != 1:
            raise TypeError('ord() expected a character, but string of length %s found' % (n,))
        return c[0] if c.kind != 's' else c.cells()[0]
    if type(c) is SymInt:
        raise TypeError('ord() expected string of length 1, but int found')
    return ord(c)


def m_chr(i):
    if type(i) is SymInt:
        if i < 0 or i > 0x10ffff:
            raise ValueError('chr() arg not in range(0x110000)')
        return mk('s', [i])
    return chr(i)


def _byte_cell(v):
    if type(v) is SymInt:
        if v < 0 or v > 255:
            raise ValueError('bytes must be in range(0, 256)')
        return V.narrow(v, 0, 255)
    if type(v) is SymBool:
        return V.b2i(v)
    if is_seq(v) or not hasattr(v, '__index__'):
        raise TypeError("%r object cannot be interpreted as an integer" % R.type_name(v))
    v = operator.index(v)
    if not 0 <= v <= 255:
        raise ValueError('bytes must be in range(0, 256)')
    return v


def _mkbytes(kind, x, enc=None, *a):
    if enc is not None:
        return mk(kind, items_of(x.encode(enc)))
    if type(x) in (SymInt, SymBool):
        n = V.concretize(x)
        return mk(kind, [0] * n) if n >= 0 else bytes(n)
    if is_seq(x):
        if R.kind_of(x) == 's':
            raise TypeError('string argument without an encoding')
        return mk(kind, items_of(x))
    if not has_sym(x) and not hasattr(x, '__next__') and not hasattr(x, '__iter__'):
        return bytes(x) if kind == 'b' else bytearray(x)
    return mk(kind, [_byte_cell(v) for v in x])


def m_bytes(x=b'', *a, **k):
    if is_sym(x) or hasattr(x, '__iter__') and not isinstance(x, (bytes, str)):
        return _mkbytes('b', x, *a, **k)
    return bytes(x, *a, **k)


def m_bytearray(x=b'', *a, **k):
    if is_sym(x) or hasattr(x, '__iter__') and not isinstance(x, (bytes, str, bytearray)):
        return _mkbytes('a', x, *a, **k)
    return bytearray(x, *a, **k)


def m_range(*a):
    """range with symbolic ends: yields ints, forking on the bound"""
    if len(a) == 1:
        st, en, sp = 0, a[0], 1
    elif len(a) == 2:
        st, en, sp = a[0], a[1], 1
    else:
        st, en, sp = a
    if is_sym(sp):
        sp = V.concretize(sp)
    if is_sym(st):
        st = V.concretize(st)
    return SymRange(st, en, sp)


class SymRange(object):
    def __init__(self, st, en, sp):
        self.st, self.en, self.sp = st, en, sp

    def __iter__(self):
        i = self.st
        while (i < self.en) if self.sp > 0 else (i > self.en):
            yield i
            i += self.sp

    def __len__(self):
        return len(list(iter(self)))

    def __getitem__(self, i):
        return list(iter(self))[i]

    def __contains__(self, x):
        return x in list(iter(self))

    def __reversed__(self):
        return reversed(list(iter(self)))


def m_pow(a, b, m=None):
    if m is None:
        return a ** b
    if m == 0:
        raise ValueError('pow() 3rd argument cannot be 0')
    if is_sym(b):
        h = _cur().notes.get('pow_model')
        if h:
            return h(a, b, m)
        b = V.concretize(b)
    h = _cur().notes.get('pow_model')
    if h:
        r = h(a, b, m)
        if r is not None:
            return r
    if b < 0:
        raise Unsupported('modular inverse of a symbolic value')
    # square and multiply, reducing each step
    r = 1
    base = a % m
    if b > 4096:
        raise Unsupported('large symbolic modular power')
    while b:
        if b & 1:
            r = (r * base) % m
        b >>= 1
        if b:
            base = (base * base) % m
    return r % m if not is_sym(r) else r


def m_round(x, n=None):
    if type(x) is SymInt:
        return x
    raise Unsupported('round of symbolic value')


def m_type(x, *a):
    if a:
        return type(x, *a)
    t = type(x)
    if t in _symset:
        return x.__class__
    if t is SymHash:
        return type(hashlib.sha256())
    return t


def m_hex(x):
    it = fmt_int(x, 'x', '', None, None)
    if it and it[0] == 45:
        return mk('s', [45, 48, 120] + it[1:])
    return mk('s', [48, 120] + it)


def m_divmod(a, b):
    return (a // b, a % b)


def m_hash(x):
    return 7


def m_isinstance(x, t):
    return isinstance(x, t)


def m_from_bytes(b, byteorder='big', signed=False):
    cs = Rope('b', list(items_of(b) if is_seq(b) else [_byte_cell(v) for v in b])).cells()
    if byteorder == 'little':
        cs = cs[::-1]
    v = V.cells_int(cs)
    if signed:
        v = _signed(v, len(cs))
    return v


def m_min(*a, **k):
    return _minmax(a, k, False)


def m_max(*a, **k):
    return _minmax(a, k, True)


def _minmax(a, k, mx):
    key = k.get('key')
    seq = list(a[0]) if len(a) == 1 else list(a)
    if not seq:
        if 'default' in k:
            return k['default']
        raise ValueError('empty sequence')
    if key is None and all(V.is_int(x) for x in seq):
        r = seq[0]
        for x in seq[1:]:
            if is_sym(x) or is_sym(r):
                c = (x > r) if mx else (x < r)
                if type(c) is SymBool:
                    lr, lx = V.rng(r), V.rng(x)
                    f = V._max if mx else V._min
                    r = mk_int(z3.If(c.expr, ie(x), ie(r)), f(lr[0], lx[0]), f(lr[1], lx[1]))
                elif c:
                    r = x
            else:
                r = max(r, x) if mx else min(r, x)
        return r
    kf = key or (lambda x: x)
    r = seq[0]
    rk = call(kf, r)
    for x in seq[1:]:
        xk = call(kf, x)
        if (xk > rk) if mx else (xk < rk):
            r, rk = x, xk
    return r


def m_sorted(it, key=None, reverse=False):
    """insertion sort: only needs comparisons"""
    xs = list(it)
    ks = [call(key, x) if key else x for x in xs]
    out = []
    for k, x in zip(ks, xs):
        i = len(out)
        while i > 0 and ((k < out[i - 1][0]) if not reverse else (out[i - 1][0] < k)):
            i -= 1
        out.insert(i, (k, x))
    return [x for _, x in out]


def m_any(it):
    for x in it:
        if x:
            return True
    return False


def m_all(it):
    for x in it:
        if not x:
            return False
    return True


def m_print(*a, **k):
    return None


def m_reversed(x):
    if type(x) is Rope:
        return iter([x._elem(c) for c in reversed(x.cells())])
    return reversed(x)


def m_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


def m_filter(f, it):
    return (x for x in it if (call(f, x) if f is not None else x))


def m_reduce(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = call(f, acc, x)
    return acc


def m_sum(it, start=0):
    acc = start
    for x in it:
        acc = acc + x
    return acc


def m_hexlify(x, *a):
    if R.kind_of(x) == 's':
        raise TypeError("a bytes-like object is required, not 'str'")
    if a:
        raise Unsupported('hexlify with separator')
    return R.hexlify(x, 'b')


def m_unhexlify(x):
    return R.unhexlify(x)


def m_fromhex(x):
    if R.kind_of(x) != 's':
        raise TypeError('fromhex() argument must be str')
    try:
        return R.unhexlify(x)
    except binascii.Error as e:
        raise ValueError(str(e))


def m_compare_digest(a, b):
    return a == b


def m_int2byte(i):
    """six.int2byte == struct.Struct('>B').pack"""
    return m_pack('>B', i)


_ITERTOOLS = ()

MODELS = {
    builtins.int: m_int, builtins.float: m_float, builtins.bool: m_bool, builtins.str: m_str, builtins.repr: m_repr,
    builtins.len: m_len, builtins.ord: m_ord, builtins.chr: m_chr, builtins.bytes: m_bytes,
    builtins.bytearray: m_bytearray, builtins.range: m_range, builtins.pow: m_pow, builtins.divmod: m_divmod,
    builtins.round: m_round, builtins.hex: m_hex, builtins.hash: m_hash, builtins.sorted: m_sorted,
    builtins.min: m_min, builtins.max: m_max, builtins.reversed: m_reversed, builtins.print: m_print,
    builtins.sum: m_sum,
    struct.pack: m_pack, struct.unpack: m_unpack, struct.unpack_from: m_unpack_from,
    binascii.hexlify: m_hexlify, binascii.unhexlify: m_unhexlify, binascii.b2a_hex: m_hexlify,
    binascii.a2b_hex: m_unhexlify,
    io.BytesIO: SymIO,
    hashlib.new: m_hashnew,
}
import hmac as _hm
MODELS[_hm.compare_digest] = m_compare_digest
for _n in ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512'):
    MODELS[getattr(hashlib, _n)] = mk_hash(_n)
try:
    MODELS[operator.index] = lambda x: x
    import functools
    MODELS[functools.reduce] = m_reduce
    MODELS[operator.add] = lambda a, b: a + b
    MODELS[operator.xor] = lambda a, b: a ^ b
    MODELS[operator.mul] = lambda a, b: a * b
except Exception:
    pass

# safe to run natively with proxies inside (they only move references or use rich comparison)
NATIVE_OK = {
    builtins.isinstance, builtins.issubclass, builtins.zip, builtins.enumerate, builtins.list, builtins.tuple,
    builtins.any, builtins.all, builtins.iter, builtins.next, builtins.getattr, builtins.setattr, builtins.hasattr,
    builtins.id, builtins.callable, builtins.abs, builtins.super, builtins.object, builtins.property, builtins.vars,
    builtins.dir, builtins.staticmethod, builtins.classmethod, builtins.slice,
}

ALWAYS = {}          # functions replaced even with concrete arguments (set by harness stubs)


def call(f, *args, **kw):
    """dispatch of every call made by instrumented code"""
    if ALWAYS:
        try:
            a = ALWAYS.get(f)
        except TypeError:
            a = None
        if a is not None:
            return a(*args, **kw)
    ft = type(f)
    if ft is types.FunctionType and f not in MODELS and f not in _HASH_CTORS and f is not _hmac.new:
        return f(*args, **kw)
    if f is type and len(args) == 1:
        return m_type(args[0])
    sym = False
    for x in args:
        if has_sym(x):
            sym = True
            break
    if not sym and kw:
        for x in kw.values():
            if has_sym(x):
                sym = True
                break
    try:
        model = MODELS.get(f)
    except TypeError:
        model = None
    if f is builtins.map:
        return m_map(*args)
    if f is builtins.filter:
        return m_filter(*args)
    if not sym:
        # iterators may hide symbolic values
        if model is not None and args and (hasattr(args[0], '__next__') or type(args[0]) in (SymRange, zip, map)):
            if f in (builtins.bytes, builtins.bytearray, builtins.sum, builtins.min, builtins.max, builtins.sorted):
                return model(*args, **kw)
            if f is functools.reduce:
                return model(*args, **kw)
        if f is builtins.len and type(args[0]) in (SymRange,):
            return len(args[0])
        if ft is types.BuiltinMethodType:
            s = f.__self__
            if isinstance(s, (bytes, str, bytearray)) and f.__name__ == 'join' and args and type(args[0]) not in (list, tuple):
                seq = list(args[0])
                if has_sym(seq):
                    return R.seq_join(s, seq)
                return f(seq)
            if isinstance(s, bytearray) and f.__name__ in ('extend', '__iadd__') and args and type(args[0]) not in (list, tuple, bytes, bytearray):
                seq = list(args[0])
                if has_sym(seq):
                    raise Unsupported('bytearray mutation with symbolic values')
                return f(seq)
            st = type(s)
            if st is dict or st is set:
                return _container_call(f, s, args, kw)
        if f is _hmac.new or f is getattr(_hmac, 'HMAC', None) or f in _HASH_CTORS:
            # hash objects may be fed symbolic data later
            if f is _hmac.new or f is getattr(_hmac, 'HMAC', None):
                return SymHmac(*args, **kw)
            return model(*args, **kw)
        if f is io.BytesIO:
            return SymIO(*args, **kw)
        if (f is str or f is repr) and len(args) == 1 and not kw:
            g = getattr(type(args[0]), '__str__' if f is str else '__repr__', None)
            if type(g) is types.FunctionType:       # may return a proxy
                return g(args[0])
        return f(*args, **kw)
    # ---- some argument is symbolic
    if f is _hmac.new or f is getattr(_hmac, 'HMAC', None):
        return SymHmac(*args, **kw)
    if model is not None:
        return model(*args, **kw)
    if f in NATIVE_OK if _hashable(f) else False:
        return f(*args, **kw)
    if ft is types.MethodType:
        return f(*args, **kw)
    if ft is types.BuiltinMethodType:        # also builtin functions
        s = getattr(f, '__self__', None)
        name = f.__name__
        if isinstance(s, (bytes, str)) and not isinstance(s, type):
            if name == 'join':
                return R.seq_join(s, args[0])
            if name == 'format':
                return m_strformat(s, args, kw)
            if name == 'find' or name == 'index':
                return getattr(Rope(R.kind_of(s), items_of(s)), name)(*args, **kw)
            m = getattr(Rope(R.kind_of(s), items_of(s)), name, None)
            if m is not None:
                return m(*args, **kw)
        elif isinstance(s, bytearray):
            raise Unsupported('bytearray.%s with symbolic value' % name)
        elif s is int or (isinstance(s, type) and issubclass(s, int)):
            if name == 'from_bytes':
                return m_from_bytes(*args, **kw)
        elif s is bytes and name == 'fromhex':
            return m_fromhex(*args)
        elif isinstance(s, struct.Struct):
            if name == 'pack':
                return m_pack(s.format, *args)
            if name == 'unpack':
                return m_unpack(s.format, *args)
            if name == 'unpack_from':
                return m_unpack_from(s.format, *args)
        elif type(s) in (dict, set, frozenset) or isinstance(s, dict):
            return _container_call(f, s, args, kw)
        elif type(s) is list or type(s) is tuple:
            if name == 'sort':
                s[:] = m_sorted(s, *args, **kw)
                return None
            return f(*args, **kw)
        elif s is not None and not isinstance(s, types.ModuleType):
            cls = type(s).__name__
            if cls in ('deque', 'defaultdict', 'OrderedDict'):
                return f(*args, **kw)
        if f in NATIVE_OK:
            return f(*args, **kw)
        return _native(f, args, kw)
    if ft is type or isinstance(f, type):
        # class call: Python classes take proxies, C classes do not
        if f.__module__ in ('builtins',):
            if f in (dict, set, frozenset):
                return _mk_container(f, args, kw)
            if issubclass(f, BaseException):
                return f(*args, **kw)
            return _native(f, args, kw)
        return f(*args, **kw)
    if ft in (types.MethodDescriptorType, types.WrapperDescriptorType, types.MethodWrapperType):
        # unbound: str.upper(x), bytes.join(..), or sym.method
        if args and type(args[0]) is Rope:
            return getattr(args[0], f.__name__)(*args[1:], **kw)
        if args and type(args[0]) in (SymInt, SymBool):
            return getattr(args[0], f.__name__)(*args[1:], **kw)
        if ft is types.MethodDescriptorType and args and isinstance(args[0], (str, bytes, dict, set, int)):
            return call(getattr(args[0], f.__name__), *args[1:], **kw)
        return f(*args, **kw)
    return f(*args, **kw)


_HASH_CTORS = {hashlib.new} | {getattr(hashlib, n) for n in ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512')}


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


def _native(f, args, kw):
    mod = getattr(f, '__module__', None) or ''
    name = getattr(f, '__qualname__', None) or getattr(f, '__name__', str(f))
    if mod in ('_operator', 'operator', '_functools', 'itertools', '_collections', 'collections', 'copy', '_copy', 'copyreg', '_weakref'):
        return f(*args, **kw)
    if mod in ('time', '_socket', 'posix', '_thread', '_random', 'select'):
        return f(*[concretize(a, name) for a in args], **{k: concretize(v, name) for k, v in kw.items()})
    note = '%s.%s' % (mod, name)
    return f(*[concretize(a, note) for a in args], **{k: concretize(v, note) for k, v in kw.items()})


# ------------------------------------------------------------------ dict / set
def _keysym(k):
    t = type(k)
    if t in _symset:
        return True
    if t is tuple or t is frozenset:
        return any(_keysym(x) for x in k)
    return False


def _has_symkeys(d):
    if len(d) > 4000:
        return False
    for k in d:
        if _keysym(k):
            return True
    return False


def _find(d, key):
    """the existing key equal to `key`, forking; returns (found, key)"""
    if type(key) is SymInt and len(d) > 16 and all(type(k) is int for k in d):
        # wide lookup: is it in there at all?
        ks = sorted(d)
        e = V.b_or(*[key == k for k in ks])
        if not e:
            return False, key
        return True, V.concretize(key)
    for k in d:
        if _keysym(k) or _keysym(key):
            e = _key_eq(k, key)
            if e is False:
                continue
            if e:
                return True, k
        elif k == key:
            return True, k
    return False, key


def _key_eq(a, b):
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        return V.b_and(*[_key_eq(x, y) for x, y in zip(a, b)])
    try:
        return a == b
    except Unsupported:
        raise
    except Exception:
        return False


def _container_call(f, s, args, kw):
    name = f.__name__
    if not args:
        return f(*args, **kw)
    key = args[0]
    if name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__', '__delitem__', '__setitem__', 'add', 'discard', 'remove'):
        if not _keysym(key) and not _has_symkeys(s):
            return f(*args, **kw)
        if name == 'get' and type(s) is dict:
            r = _tabget(s, key)
            if r is not _marker:
                return r
        found, k = _find(s, key)
        if type(s) is set or type(s) is frozenset:
            if name == 'add':
                if not found:
                    s.add(key)
                return None
            if name == '__contains__':
                return found
            if name == 'discard' or name == 'remove':
                if found:
                    s.discard(k) if not _keysym(k) else _set_del(s, k)
                elif name == 'remove':
                    raise KeyError(key)
                return None
        if name == '__contains__':
            return found
        if found:
            if name in ('get', '__getitem__', 'setdefault'):
                return _raw_get(s, k)
            if name == 'pop':
                v = _raw_get(s, k)
                _raw_del(s, k)
                return v
        else:
            if name == 'get':
                return args[1] if len(args) > 1 else None
            if name == 'pop':
                if len(args) > 1:
                    return args[1]
                raise KeyError(key)
            if name == 'setdefault':
                v = args[1] if len(args) > 1 else None
                s[key] = v
                return v
            if name == '__getitem__':
                raise KeyError(key)
    if name == 'update' and type(s) is dict:
        if args and hasattr(args[0], 'keys'):
            for k in args[0]:
                setitem(s, k, args[0][k])
        elif args:
            for k, v in args[0]:
                setitem(s, k, v)
        for k in kw:
            s[k] = kw[k]
        return None
    if name == 'update' and type(s) is set:
        for a in args:
            for x in a:
                _container_call(s.add, s, (x,), {})
        return None
    return f(*args, **kw)


def _raw_get(d, k):
    for kk, v in d.items():
        if kk is k:
            return v
    return d[k]


def _raw_del(d, k):
    items = [(a, b) for a, b in d.items() if a is not k]
    if len(items) == len(d):
        del d[k]
        return
    d.clear()
    for a, b in items:
        d[a] = b


def _set_del(s, k):
    xs = [x for x in s if x is not k]
    s.clear()
    for x in xs:
        s.add(x)


def _mk_container(f, args, kw):
    if f is dict:
        d = {}
        if args:
            src = args[0]
            it = src.items() if hasattr(src, 'items') else src
            for k, v in it:
                setitem(d, k, v)
        d.update(kw)
        return d
    s = set()
    for x in (args[0] if args else ()):
        _container_call(s.add, s, (x,), {})
    return s if f is set else frozenset(s)


def _tabget(d, key):
    """dict with known keys looked up by a symbolic int/char: a table when the keys are dense codes"""
    return _marker


# ------------------------------------------------------------------ subscripts and operators
def getitem(o, i):
    t = type(o)
    if t is dict or (isinstance(o, dict) and type(o).__getitem__ is dict.__getitem__):
        if _keysym(i) or (len(o) <= 64 and _has_symkeys(o)):
            # a known table from codes to ints?
            if type(i) is SymInt or (type(i) is Rope and len(i.items) == 1 and type(i.items[0]) is SymInt):
                r = _dict_table(o, i)
                if r is not _marker:
                    return r
            found, k = _find(o, i)
            if found:
                return _raw_get(o, k)
            if hasattr(type(o), '__missing__'):
                return o.__missing__(i)
            raise KeyError(i)
        return o[i]
    if type(i) is SymInt or type(i) is SymBool:
        if type(i) is SymBool:
            i = V.b2i(i)
        if t in (bytes, str, bytearray):
            return Rope(R.kind_of(o), items_of(o))[i]
        if t is list or t is tuple:
            n = len(o)
            if i < 0:
                i = i + n
                if i < 0:
                    raise IndexError('list index out of range')
            if not (i < n):
                raise IndexError('list index out of range')
            if type(i) is int:
                return o[i]
            if n and all(V.is_int(x) for x in o):
                return R.mk_table(list(o), i)
            if n and all(R.is_seq(x) and type(x) is not bytearray and R.V_len(x) == 1 for x in o) and len(set(R.kind_of(x) for x in o)) == 1:
                k = R.kind_of(o[0])
                return mk(k, [R.mk_table([items_of(x)[0] for x in o], i)])
            return o[V.concretize(i)]
        if t is Rope:
            return o[i]
        if isinstance(o, (list, tuple)):
            return o[V.concretize(i)]
    if type(i) is slice and (is_sym(i.start) or is_sym(i.stop) or is_sym(i.step)):
        if t in (bytes, str, bytearray):
            if i.step is None and i.start is not None and i.stop is not None and type(i.start) is SymInt:
                # s[i:i+1]: a one-element window
                d = i.stop - i.start
                if type(d) is int and d == 1 and not is_sym(i.stop) is False:
                    st = i.start
                    if not (st < 0) and st < len(o):
                        return mk(R.kind_of(o), [R.mk_table(items_of(o), st)] if type(st) is SymInt else [items_of(o)[st]])
            return Rope(R.kind_of(o), items_of(o))[i]
        if t is list or t is tuple:
            f = lambda x: None if x is None else V.concretize(x) if is_sym(x) else x
            return o[slice(f(i.start), f(i.stop), f(i.step))]
    return o[i]


def _dict_table(d, key):
    """d maps codes / one-character strings to ints: table lookup instead of a fork per key"""
    ks = list(d)
    if not ks or len(ks) > 300 or any(_keysym(k) for k in ks):
        return _marker
    if not all(isinstance(v, int) and not isinstance(v, bool) for v in d.values()):
        return _marker
    if type(key) is SymInt:
        if not all(isinstance(k, int) for k in ks):
            return _marker
        codes = [int(k) for k in ks]
        c = key
    else:
        if not all(is_seq(k) and R.kind_of(k) == key.kind and len(k) == 1 for k in ks):
            return _marker
        codes = [items_of(k)[0] for k in ks]
        c = key.items[0]
    pos = R._table_find(codes, c, 0)
    if type(pos) is int and pos < 0:
        raise KeyError(key)
    vals = list(d.values())
    if type(pos) is int:
        return vals[pos]
    if vals == list(range(len(vals))):
        return pos
    return R.mk_table(vals, pos)


def setitem(o, i, v):
    t = type(o)
    if t is dict or isinstance(o, dict):
        if _keysym(i) or (len(o) <= 64 and _has_symkeys(o)):
            found, k = _find(o, i)
            if found:
                if _keysym(k):
                    items = [(a, (v if a is k else b)) for a, b in o.items()]
                    o.clear()
                    for a, b in items:
                        o[a] = b
                else:
                    o[k] = v
                return
        o[i] = v
        return
    if t is list and (type(i) is SymInt or type(i) is SymBool):
        n = len(o)
        if i < 0:
            i = i + n
        if not (i < n) or i < 0:
            raise IndexError('list assignment index out of range')
        o[V.concretize(i)] = v
        return
    if t is bytearray and (has_sym(v) or is_sym(i)):
        raise Unsupported('native bytearray assigned a symbolic value')
    if t is list and type(i) is slice and (is_sym(i.start) or is_sym(i.stop)):
        f = lambda x: None if x is None else V.concretize(x) if is_sym(x) else x
        o[slice(f(i.start), f(i.stop), f(i.step))] = v
        return
    o[i] = v


def delitem(o, i):
    if isinstance(o, dict):
        if _keysym(i) or _has_symkeys(o):
            found, k = _find(o, i)
            if not found:
                raise KeyError(i)
            _raw_del(o, k)
            return
    if is_sym(i):
        i = V.concretize(i)
    del o[i]


def mod(a, b):
    t = type(a)
    if t is str or t is bytes:
        if has_sym(b):
            return m_format(a, b)
        bt = b if type(b) is tuple else (b,)
        if any(not isinstance(x, (int, str, bytes, float)) and x is not None for x in bt):
            # an object whose __str__ is instrumented code may return a proxy
            return m_format(a, b) if any(hasattr(type(x), '__str__') and type(type(x)).__name__ != 'type' for x in bt) else a % b
    return a % b


def contains(x, c):
    t = type(c)
    if t is dict or t is set or t is frozenset or isinstance(c, (dict, set, frozenset)):
        if _keysym(x) or (len(c) <= 64 and _has_symkeys(c)):
            if type(x) is SymInt and not isinstance(c, dict) and all(type(k) is int for k in c):
                return bool(V.b_or(*[x == k for k in c]))
            return _find(c, x)[0]
        return x in c
    if is_sym(x):
        if t in (bytes, str, bytearray):
            return x in Rope(R.kind_of(c), items_of(c))
        if t in (tuple, list) and type(x) is SymInt and all(V.is_int(k) for k in c):
            return bool(V.b_or(*[x == k for k in c]))
        if t in (tuple, list) and type(x) is Rope:
            return bool(V.b_or(*[x == k for k in c]))
        if t is range:
            if c.step == 1:
                return bool(V.b_and(x >= c.start, x < c.stop))
            return any(bool(x == k) for k in c)
    if t is type({}.keys()):
        return _find(list(c), x)[0] if _keysym(x) else x in c
    return x in c
