"""Concrete twin of the harness API: runs a harness on given inputs against the
unmodified code (no solver, no instrumentation).  Used for every replay."""
import contextlib
import hashlib
import hmac
import os
import sys


class Violation(BaseException):
    pass


class Skip(BaseException):
    pass


def dec(v):
    if isinstance(v, dict):
        if 'b' in v:
            return bytes.fromhex(v['b'])
        if 's' in v:
            return ''.join(map(chr, v['s']))
        if 'i' in v:
            return int(v['i'])
        if 't' in v:
            return tuple(dec(x) for x in v['t'])
        if 'f' in v:
            return float(v['f'])
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


def enc(v):
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, bytes):
        return {'b': v.hex()}
    if isinstance(v, str):
        return {'s': [ord(c) for c in v]}
    if isinstance(v, int):
        return {'i': str(v)}
    if isinstance(v, float):
        return {'f': repr(v)}
    if isinstance(v, tuple):
        return {'t': [enc(x) for x in v]}
    if isinstance(v, list):
        return [enc(x) for x in v]
    raise TypeError(type(v))


SECP_N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
# logarithms of secp256k1 points whose coordinates have leading zero bytes or digits, trailing zeros, or top bytes of ff:
# what the solver may ask of an uninterpreted coordinate, a replay has to find in a real point
SPECIAL = (122, 130, 153, 1158, 59, 119, 118, 151, 201, 463, 41192, 44629, 55959)


# and points whose x lies between the group order and the field size, or is smallest
SPECIAL_X = (SECP_N + 0, 2 ** 256 - 2 ** 32 - 977 - 3, 1)


def special_point(k):
    if k >= len(SPECIAL):
        x, p = SPECIAL_X[k - len(SPECIAL)], 2 ** 256 - 2 ** 32 - 977
        return x.to_bytes(32, 'big') + pow(x ** 3 + 7, (p + 1) // 4, p).to_bytes(32, 'big')
    k = SPECIAL[k]
    from nbc.util.ecdsa import SECP256k1 as c
    p = c.generator * k
    return p.x().to_bytes(32, 'big') + p.y().to_bytes(32, 'big')


class H(object):
    symbolic = False
    used_ec = False

    def __init__(self, vals, alt=0):
        self.vals = vals
        self.alt = alt
        self.covered = set()
        self.undo = []
        self.log = []

    # ---- inputs
    def _v(self, name, default):
        return self.vals.get(name, default)

    def int(self, name, lo, hi):
        v = self._v(name, lo if lo is not None else 0)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()        # not an input of this harness
        return v

    def byte(self, name):
        return self._v(name, 0)

    def bytes(self, name, n):
        v = self._v(name, b'\0' * n)
        if len(v) != n:
            raise Skip()
        return v

    def str(self, name, n, lo=0, hi=127, alphabet=None):
        v = self._v(name, (alphabet[0] if alphabet else chr(lo)) * n)
        if len(v) != n or any((c not in alphabet) if alphabet else not lo <= ord(c) <= hi for c in v):
            raise Skip()
        return v

    def blob(self, name, lo, hi, maxbyte=255):
        v = self._v(name, b'\0' * lo)
        if not lo <= len(v) <= hi or any(c > maxbyte for c in v):
            raise Skip()
        return v

    def bool(self, name):
        return self._v(name, False)

    def choice(self, name, items):
        items = list(items)
        i = self._v(name, 0)
        if not 0 <= i < len(items):
            raise Skip()
        return items[i]

    def real(self, name, lo=None, hi=None):
        v = self._v(name, float(lo or 0))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        return v

    def scalar(self, name, n):
        """an abstract secret/point index: the solver reasons about it opaquely, so the
        replay walks through representatives"""
        v = self._v(name, 1) % n
        if n == SECP_N:
            self.used_ec = True
            self.scalars = getattr(self, 'scalars', 0) + 1
            if 0 < self.alt <= 2 * len(SPECIAL):
                s, d = SPECIAL[(self.alt - 1) // 2], self.alt % 2
                return s - d if self.scalars == 1 else 1
        if self.alt:
            v = (self.alt * 7919 + v * (self.alt % 3 == 0) + len(name)) % n or 1
        return v or 1

    # ---- obligations
    def assume(self, c):
        if not c:
            raise Skip()

    def fact(self, c, about=None):
        self.assume(c)

    def check(self, c, label, info=None):
        if not c:
            raise Violation(label)

    def fail(self, label):
        raise Violation(label)

    def cover(self, label):
        self.covered.add(label)

    # ---- logic helpers
    def eq(self, a, b):
        return type(a) == type(b) and a == b if isinstance(a, (bytes, str)) != isinstance(b, (bytes, str)) else a == b

    def all(self, *cs):
        return all(cs)

    def any(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or b

    def ite(self, c, a, b):
        return a if c else b

    def len(self, x):
        return len(x)

    def concat(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = r + x
        return r

    def from_cells(self, kind, cells):
        return bytes(cells) if kind == 'b' else ''.join(map(chr, cells))

    def cells(self, x):
        return [ord(c) for c in x] if isinstance(x, str) else list(x)

    def fmt(self, tmpl, *args):
        return tmpl % args

    def item(self, seq, i):
        return seq[i]

    def be(self, x):
        return int.from_bytes(bytes(x), 'big')

    def le(self, x):
        return int.from_bytes(bytes(x), 'little')

    def to_be(self, v, n):
        return v.to_bytes(n, 'big')

    def to_le(self, v, n):
        return v.to_bytes(n, 'little')

    def twos(self, v, n):
        return v % (1 << (8 * n))

    def is_sym(self, x):
        return False

    def call(self, f, *a, **k):
        """run code under test: ('ok', value) or ('raise', exception)"""
        try:
            return 'ok', f(*a, **k)
        except Exception as e:
            return 'raise', e

    def run(self, f, *a, **k):
        return f(*a, **k)

    def sha(self, name, data):
        return hashlib.new(name, data).digest()

    def hmac(self, name, key, data):
        return hmac.new(key, data, name).digest()

    def uf(self, name, nbytes, *parts):
        """an arbitrary function used as a stub (real run: a keyed hash)"""
        h = hashlib.shake_256(repr((name, parts)).encode())
        return h.digest(nbytes)

    # ---- environment
    def stub(self, obj, attr, fn):
        old = getattr(obj, attr)
        self.undo.append((obj, attr, old, attr in vars(obj)))
        setattr(obj, attr, fn)

    def only_symbolic_stub(self, obj, attr, fn):
        pass

    def cleanup(self):
        for obj, attr, old, own in reversed(self.undo):
            if own:
                setattr(obj, attr, old)
            else:
                delattr(obj, attr)
        self.undo = []

    def same_known(self, a, b):
        return a == b

    same_term = same_known

    def replace(self, fn, model):
        pass

    def noise(self, name, n):
        v = self._v(name, b'\0' * n)
        if n in (32, 64):
            self.used_ec = True
            if 0 < self.alt <= len(SPECIAL) + len(SPECIAL_X):
                return special_point(self.alt - 1)[:n]
        if self.alt:
            v = hashlib.shake_256(b'%d' % self.alt + name.encode() + v).digest(n)
        return v

    def pow_model(self, f):
        pass

    def note(self, *a):
        pass


def run_concrete(fn, params, vals, alt=0, info=None):
    """-> (status, detail): 'ok' | 'violation' | 'skip'"""
    h = H(vals, alt)
    try:
        try:
            fn(h, **params)
        finally:
            if info is not None:
                info['ec'] = h.used_ec
        return 'ok', ''
    except Violation as e:
        return 'violation', str(e)
    except Skip:
        return 'skip', ''
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        return 'violation', 'exception %s: %s at %s' % (type(e).__name__, str(e)[:200],
                                                      ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[::-1][:4]))
    finally:
        h.cleanup()


def install_oracle(table):
    """hash functions answering from the solver's model where it constrains them"""
    tabs = {}
    for key, parts, out in table:
        tabs.setdefault(key, {})[tuple(bytes(p) for p in parts)] = out
    real = {n: getattr(hashlib, n) for n in ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512')}
    real_new = hashlib.new
    real_hmac = hmac.new

    class OH(object):
        def __init__(self, name, data=b''):
            self.name = name
            self.buf = bytes(data)
            o = real_new(name)
            self.digest_size, self.block_size = o.digest_size, o.block_size

        def update(self, d):
            self.buf += bytes(d)

        def copy(self):
            return OH(self.name, self.buf)

        def digest(self):
            t = tabs.get(self.name, {}).get((self.buf,))
            return t if t is not None else real_new(self.name, self.buf).digest()

        def hexdigest(self):
            return self.digest().hex()

    class OM(OH):
        def __init__(self, key, msg, name):
            OH.__init__(self, name, msg or b'')
            self.key = bytes(key)

        def copy(self):
            return OM(self.key, self.buf, self.name)

        def digest(self):
            t = tabs.get('hmac-' + self.name, {}).get((self.key, self.buf))
            return t if t is not None else real_hmac(self.key, self.buf, self.name).digest()

    for n in real:
        setattr(hashlib, n, (lambda n: lambda data=b'', **k: OH(n, data))(n))
    hashlib.new = lambda name, data=b'', **k: OH(name.lower(), data)

    def new(key, msg=None, digestmod=''):
        if not isinstance(digestmod, str):
            digestmod = digestmod().name
        return OM(key, msg, digestmod)
    hmac.new = new
