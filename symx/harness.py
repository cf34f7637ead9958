"""Symbolic twin of the harness API."""
import z3
from . import engine, values as V, rope as R, models as M
from .engine import Infeasible, Found, Unsupported, SxAbort
from .values import SymInt, SymBool, SymFloat, mk_bool, ie
from .rope import Rope, mk, items_of, is_seq


class H(object):
    symbolic = True

    def __init__(self, path):
        self.p = path
        self.undo = []
        self.covered = set()
        self.kept = []

    # ---- inputs
    def int(self, name, lo, hi):
        v = z3.Int(name)
        if lo is not None:
            self.p.defsym(v, v >= lo)
        if hi is not None:
            self.p.defsym(v, v <= hi)
        if lo is not None and lo == hi:
            self.p.inputs[name] = ('int', lo)
            return lo
        r = SymInt(v, lo, hi)
        self.p.inputs[name] = ('int', r)
        return r

    def byte(self, name):
        return self.int(name, 0, 255)

    def bytes(self, name, n):
        cs = []
        for i in range(n):
            v = z3.Int('%s[%d]' % (name, i))
            self.p.defsym(v, v >= 0, v <= 255)
            cs.append(V.byte_atom(SymInt(v, 0, 255)))
        r = mk('b', cs)
        self.p.inputs[name] = ('bytes', r if n else b'')
        return r

    def str(self, name, n, lo=0, hi=127, alphabet=None):
        cs = []
        for i in range(n):
            v = z3.Int('%s[%d]' % (name, i))
            if alphabet:
                codes = sorted(ord(c) for c in alphabet)
                self.p.defsym(v, z3.Or(*[v == c for c in codes]))
                cs.append(SymInt(v, codes[0], codes[-1]))
            else:
                self.p.defsym(v, v >= lo, v <= hi)
                cs.append(SymInt(v, lo, hi))
        r = mk('s', cs)
        self.p.inputs[name] = ('str', r if n else '')
        return r

    def blob(self, name, lo, hi, maxbyte=255):
        n = z3.Int(name + '.len')
        self.p.defsym(n, n >= lo, n <= hi)
        arr = z3.Array(name, z3.IntSort(), z3.IntSort())
        L = SymInt(n, lo, hi) if lo != hi else lo
        r = Rope('b', [R.Blob(arr, 0, L, maxbyte)])
        self.p.inputs[name] = ('blob', Rope('b', list(r.items)))
        return mk('b', r.items)

    def bool(self, name):
        b = SymBool(z3.Bool(name))
        self.p.inputs[name] = ('bool', b)
        return b

    def choice(self, name, items):
        items = list(items)
        i = self.int(name, 0, len(items) - 1)
        return items[V.concretize(i)]

    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        if lo is not None:
            self.p.defsym(v, v >= lo)
        if hi is not None:
            self.p.defsym(v, v <= hi)
        r = SymFloat(v)
        self.p.inputs[name] = ('real', r)
        return r

    def scalar(self, name, n):
        return self.int(name, 1, n - 1)

    # ---- obligations
    def assume(self, c):
        c = self._b(c)
        self.p.assume(c.expr if type(c) is SymBool else c)

    def fact(self, c, about=None):
        """assume something known to be satisfiable (no solver call); about: the fresh value it restricts"""
        c = self._b(c)
        if c is True:
            return
        if c is False:
            raise engine.Infeasible()
        if about is not None and self.is_sym(about):
            self.p.defsym(about.expr, c.expr)
            self.p._learn(c.expr, True)
        else:
            self.p.add(c.expr)

    def _b(self, c):
        if type(c) is SymBool or c is True or c is False:
            return c
        if type(c) is SymInt:
            return c != 0
        return bool(c)

    def check(self, c, label, info=None):
        c = self._b(c)
        self.p.check(c.expr if type(c) is SymBool else c, label, info)

    def fail(self, label):
        self.p.check(False, label)

    def cover(self, label):
        if label not in self.covered:
            self.covered.add(label)
            self.p.stats.labels['cover:' + label] = self.p.stats.labels.get('cover:' + label, 0) + 1

    # ---- logic helpers
    def eq(self, a, b):
        return seq_struct_eq(a, b)

    def all(self, *cs):
        return V.b_and(*[self._b(c) for c in cs])

    def any(self, *cs):
        return V.b_or(*[self._b(c) for c in cs])

    def not_(self, c):
        return V.b_not(self._b(c))

    def implies(self, a, b):
        return V.b_or(V.b_not(self._b(a)), self._b(b))

    def ite(self, c, a, b):
        c = self._b(c)
        if type(c) is not SymBool:
            return a if c else b
        if V.is_int(a) and V.is_int(b):
            (al, ah), (bl, bh) = V.rng(a), V.rng(b)
            return V.mk_int(z3.If(c.expr, ie(a), ie(b)), V._min(al, bl), V._max(ah, bh))
        return a if c else b

    def len(self, x):
        return M.m_len(x)

    def concat(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = r + x
        return r

    def from_cells(self, kind, cells):
        return mk(kind, cells)

    def cells(self, x):
        return list(x.cells()) if type(x) is Rope else items_of(x)

    def fmt(self, tmpl, *args):
        return M.m_format(tmpl, args)

    def item(self, seq, i):
        return M.getitem(seq, i)

    def be(self, x):
        return V.cells_int(self.cells(x))

    def le(self, x):
        return V.cells_int(self.cells(x)[::-1])

    def to_be(self, v, n):
        if type(v) is not SymInt:
            return v.to_bytes(n, 'big')
        return mk('b', V.int_cells(v, n))

    def to_le(self, v, n):
        if type(v) is not SymInt:
            return v.to_bytes(n, 'little')
        return mk('b', V.int_cells(v, n)[::-1])

    def twos(self, v, n):
        """n-byte two's complement image of a signed number"""
        if type(v) is not SymInt:
            return v % (1 << (8 * n))
        return M._unsigned(v, n)

    def is_sym(self, x):
        return M.has_sym(x)

    def call(self, f, *a, **k):
        try:
            return 'ok', M.call(f, *a, **k)
        except SxAbort:
            raise
        except Exception as e:
            return 'raise', e

    def run(self, f, *a, **k):
        return M.call(f, *a, **k)

    def sha(self, name, data):
        return M.SymHash(name, data).digest()

    def hmac(self, name, key, data):
        return M.SymHmac(key, data, name).digest()

    def uf(self, name, nbytes, *parts):
        return M.uf_bytes('uf:' + name, nbytes, parts)

    # ---- environment
    def stub(self, obj, attr, fn):
        if not hasattr(obj, attr):
            raise Unsupported('nothing to stub: %s.%s' % (getattr(obj, '__name__', obj), attr))
        self.undo.append((obj, attr, getattr(obj, attr) if attr not in vars(obj) else vars(obj)[attr], attr in vars(obj)))
        setattr(obj, attr, fn)

    only_symbolic_stub = stub

    def replace(self, fn, model):
        """every call of fn made by the code under test runs the model instead (symbolic runs only)"""
        M.ALWAYS[fn] = model

    def ident(self, c):
        """a key that equal keys share: same key, same value"""
        c = V.canon(c)
        return ('t', c.expr.get_id(), self._keep(c)) if type(c) is SymInt else c

    def _keep(self, c):
        self.kept.append(c)         # the id stays taken while the path lives
        return 0

    def same_known(self, a, b):
        """equal by structure alone (no solver)"""
        a, b = V.canon(a), V.canon(b)
        if type(a) is SymInt and type(b) is SymInt:
            if a.expr.eq(b.expr):
                return True
            c, co = V.linear(a.expr - b.expr)
            return c == 0 and not co
        return type(a) is not SymInt and type(b) is not SymInt and a == b

    def surely(self, cond):
        """does cond follow from the path condition (a failed proof means no)"""
        if isinstance(cond, bool):
            return cond
        return self.p.must(self._b(cond))

    def poly(self, v, m):
        """(polynomial {monomial: coefficient} modulo m, atoms {id: integer}) of an integer"""
        return poly_mod(self.p, v, m)

    def noise(self, name, n):
        """arbitrary bytes whose exact value matters only through uninterpreted functions; replays vary them"""
        return self.bytes(name, n)

    def same_term(self, a, b):
        """provably equal integers, first by structure, then by the solver"""
        d = a - b
        if type(d) is not SymInt:
            return d == 0
        e = z3.simplify(d.expr, som=True)
        if z3.is_int_value(e):
            return e.as_long() == 0
        return self.p.must(e == 0)

    def cleanup(self):
        for obj, attr, old, own in reversed(self.undo):
            if own:
                setattr(obj, attr, old)
            else:
                delattr(obj, attr)
        self.undo = []

    def pow_model(self, f):
        self.p.notes['pow_model'] = f

    def note(self, *a):
        pass


def poly_mod(path, v, m):
    atoms = {}

    def mul(a, b):
        r = {}
        for ka, ca in a.items():
            for kb, cb in b.items():
                k = tuple(sorted(ka + kb))
                r[k] = (r.get(k, 0) + ca * cb) % m
        return {k: c for k, c in r.items() if c}

    def add(a, b, s=1):
        r = dict(a)
        for k, c in b.items():
            r[k] = (r.get(k, 0) + s * c) % m
        return {k: c for k, c in r.items() if c}

    def go(t):
        key = ('poly', m, t.get_id())
        got = path.memo.get(key)
        if got is not None:
            atoms.update(got[1])
            return got[0]
        if z3.is_int_value(t):
            r = {(): t.as_long() % m} if t.as_long() % m else {}
        elif z3.is_add(t):
            r = {}
            for c in t.children():
                r = add(r, go(c))
        elif z3.is_mul(t):
            # c * x with c = 0 mod m vanishes whatever x is
            cs = t.children()
            k = 1
            for c in cs:
                if z3.is_int_value(c):
                    k = k * c.as_long() % m
            r = {(): k} if k else {}
            for c in cs:
                if r and not z3.is_int_value(c):
                    r = mul(r, go(c))
        elif z3.is_sub(t):
            r = go(t.arg(0))
            for c in t.children()[1:]:
                r = add(r, go(c), -1)
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
            r = add({}, go(t.arg(0)), -1)
        else:
            lo, hi = path.refine(t, None, None)
            if lo is not None and lo == hi:
                return {(): lo % m} if lo % m else {}
            atoms[t.get_id()] = V.canon(SymInt(t, lo, hi))
            r = {(t.get_id(),): 1}
        path.memo[key] = (r, dict(atoms), t)
        return r
    v = V.canon(v)
    if type(v) is not SymInt:
        return ({(): v % m} if v % m else {}), {}
    return go(v.expr), atoms


def seq_struct_eq(a, b):
    if is_seq(a) and is_seq(b):
        if (R.kind_of(a) == 's') != (R.kind_of(b) == 's'):
            return False
        return R.seq_eq(a, b)
    if is_seq(a) or is_seq(b):
        return False
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        return V.b_and(*[seq_struct_eq(x, y) for x, y in zip(a, b)])
    if type(a) is dict and type(b) is dict:
        if len(a) != len(b) or set(a) != set(b):
            return False
        return V.b_and(*[seq_struct_eq(a[k], b[k]) for k in a])
    r = a == b
    return r if type(r) is SymBool else bool(r)


def run_symbolic(fn, params, opts):
    """explore one harness; returns Stats (with .cex, .witness_inputs)"""
    stats = engine.Stats()
    stats.witness_inputs = []

    def wit(p, model):
        vals = {n: engine.eval_value(model, v) for n, (k, v) in p.inputs.items()}
        stats.witness_inputs.append(vals)

    def body(p):
        h = H(p)
        M.ALWAYS.clear()
        try:
            fn(h, **params)
        except SxAbort:
            raise
        except RecursionError as e:
            raise Unsupported('recursion: %s' % str(e)[:80])
        except Exception as e:
            import traceback, os
            tb = traceback.extract_tb(e.__traceback__)
            loc = ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[::-1][:5])
            label = 'exception %s: %s at %s' % (type(e).__name__, str(e)[:160], loc)
            stats.checks += 1
            r = p._check()
            if r == z3.sat:
                stats.cex.append(p.make_cex(label, p._last_model))
                raise Found()
            if r == z3.unsat:
                raise Infeasible()
            m = p._pinned(z3.BoolVal(True))
            if m is not None:
                stats.cex.append(p.make_cex(label, m))
                raise Found()
            stats.inconclusive.append(label + ' (solver unknown)')
            raise Infeasible()
        finally:
            h.cleanup()
            M.ALWAYS.clear()

    o = dict(opts)
    o['on_witness'] = wit
    return engine.explore(body, o, stats)
