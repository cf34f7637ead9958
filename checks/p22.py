"""Modular inverses, roots, powers, divisors, factorisations and Jacobi symbols are exact."""
from symx.inst import Inst

BOUNDS = ('inverses: every argument for all moduli up to 40 and some to 257 (thorough: 130), windows of 64 arguments for the twelve field primes and orders; square roots: every argument for '
          'all primes up to 61 (thorough: 150), and the square of every element for the large primes that are 3 modulo 4 or 5 modulo 8, windows of arguments for those that are 1 modulo 8; Jacobi symbols: every argument for odd moduli up to 45 (thorough: 127), and one reduction step of every pair of up to 521 bits; '
          'divisors and multiples: numbers up to 40 by 12 values (thorough: 40) ; factorisations: every number up to 700 (thorough: 3000) and windows beyond the square of the largest tabulated prime; '
          'powers: exponents up to 12 of every base modulo the field primes and small moduli; totients and orders: numbers up to 240 (thorough: 800) and 13 moduli (thorough: 149); primality: windows of 40 numbers up to 2^80')
OUTSIDE = 'other arguments of the large moduli; numbers beyond the windows for primality, totients and orders'
ASSUMPTIONS = ['for large primes the Jacobi symbol of a square is one, and s^((p-1)/4) is one of the four fourth roots of unity']


def NT():
    from nbc.util.ecdsa import numbertheory
    return numbertheory


def egcd(a, b):
    while b:
        a, b = b, a % b
    return a


def settle(h, v, lo, hi):
    """a case split on the value, made before the code runs"""
    if not h.symbolic:
        return v
    while lo < hi:
        mid = (lo + hi) // 2
        if v <= mid:
            hi = mid
        else:
            lo = mid + 1
    return lo


def divides(h, d, n):
    return h.run(lambda: n % d) == 0


# ---------------------------------------------------------------- inverses

def inverse(h, m, split):
    a = h.int('a', -2 * m, 3 * m)
    if split:
        a = settle(h, a, -2 * m, 3 * m)
    residue = h.run(lambda: a % m)
    good = h.any(*[residue == v for v in range(m) if egcd(v, m) == 1])
    h.assume(good)
    st, r = h.call(NT().inverse_mod, a, m)
    h.check(st == 'ok', 'there is an inverse')
    if st == 'ok':
        h.check(h.any(*[h.all(residue == v, r == pow(v, -1, m)) for v in range(m) if egcd(v, m) == 1]), 'the inverse')


def moduli():
    from nbc.util.ecdsa import curves
    out = {}
    for name in ('NIST192p', 'NIST224p', 'NIST256p', 'NIST384p', 'NIST521p', 'SECP256k1'):
        c = getattr(curves, name)
        out[name + '.p'], out[name + '.n'] = c.curve.p(), c.order
    return out


def inverse_large(h, which, base, width):
    m = moduli()[which]
    t = h.int('t', 0, width - 1)
    t = settle(h, t, 0, width - 1)
    if base == 'low':
        a = 1 + t
    elif base == 'high':
        a = m - 1 - t
    elif base == 'negative':
        a = -1 - t
    elif base == 'beyond':
        a = m + 1 + t
    elif base == 'inverses':        # with a small or a large inverse
        a = h.run(lambda: pow(t // 2 + 2, -1, m) * (1 if t % 2 else -1))
    elif base == 'quotients':       # with large quotients in Euclid's algorithm
        a = h.run(lambda: m // (t // 2 + 2) + t % 2)
    else:
        a = int(base * m) + t
    st, r = h.call(NT().inverse_mod, a, m)
    h.check(st == 'ok', 'there is an inverse')
    if st == 'ok':
        h.check(a * r % m == 1 and 0 < r < m, 'the inverse')


# ---------------------------------------------------------------- square roots

def root(h, p, split):
    N = NT()
    a = h.int('a', 0, p - 1)
    if split:
        a = settle(h, a, 0, p - 1)
    squares = sorted(set(v * v % p for v in range(p)))
    is_square = h.any(*[a == v for v in squares])
    st, r = h.call(N.square_root_mod_prime, a, p)
    if st == 'ok':
        h.check(is_square, 'non-residues are refused')
        h.check(h.any(*[h.all(a == v * v % p, r == v) for v in range(p)]), 'its square is the argument')
    else:
        h.check(h.not_(is_square), 'every residue has a root')
        h.check(isinstance(r, N.SquareRootError), 'refused with the documented error')



def root_large(h, p):
    """the root of the square of any element"""
    N = NT()
    if isinstance(p, str):
        p = moduli()[p]
    s = h.scalar('s', p)
    four = (p - 1) % 4 == 0
    i = next(v for v in (pow(c, (p - 1) // 4, p) for c in range(2, 99)) if v * v % p == p - 1) if four else None
    unit = (p - 1) // (4 if four else 2)
    if not h.symbolic:
        t = h.choice('character', [1, p - 1] + ([i, p - i] if four else []))
        while pow(s, unit, p) != t:         # the next element with the character of the counterexample
            s = s % (p - 1) + 1
    a = h.run(lambda: (s * s) % p)
    if h.symbolic:
        v = h.be(h.uf('inverse of s', (p.bit_length() + 7) // 8, b''))
        t = h.choice('character', [1, p - 1] + ([i, p - i] if four else []))

        def power(b, e, m):
            if not h.is_sym(b) or m != p or h.is_sym(e):
                return None if not h.is_sym(e) and e <= 4096 else h.be(h.uf('power', 80, b'')) % m
            nf, _ = h.poly(b, p)
            one, _ = h.poly(a, p)
            k = next(iter(one))
            if list(nf) != [k]:
                raise ValueError('power of something else')
            c = nf[k] * pow(one[k], -1, p) % p
            j, r = divmod(2 * e, unit)
            if r > 6:
                j, r = j + 1, r - unit
            if not -6 <= r <= 6:
                return h.be(h.uf('power%d' % e, 80, b''))
            f = pow(c, e, p) * pow(t, j, p) % p
            return h.run(lambda: (f * (s ** r if r > 0 else v ** -r)) % p) if r else f
        h.pow_model(power)
        old = N.jacobi
        h.replace(old, lambda x, n: 1 if h.is_sym(x) and n == p else old(x, n))
    st, r = h.call(N.square_root_mod_prime, a, p)
    h.check(st == 'ok', 'a square has a root')
    if st == 'ok':
        h.check(h.all(r >= 0, r < p), 'reduced')
        if not h.is_sym(r) and r == 0:
            h.check(a == 0, 'its square is the argument')
            return
        sq = h.run(lambda: r * r)
        if not h.symbolic:
            h.check(sq % p == a, 'its square is the argument')
            return
        (si,), (vi,) = next(iter(h.poly(s, p)[0])), next(iter(h.poly(v, p)[0]))

        def cancel(nf):
            out = {}
            for k, c in nf.items():
                n = min(k.count(si), k.count(vi))
                k = list(k)
                for _ in range(n):
                    k.remove(si)
                    k.remove(vi)
                out[tuple(k)] = (out.get(tuple(k), 0) + c) % p
            return {k: c for k, c in out.items() if c}
        h.check(cancel(h.poly(sq, p)[0]) == cancel(h.poly(a, p)[0]), 'its square is the argument')


def root_window(h, p, base, width):
    """large primes that are 1 modulo 8: every argument in a window, squares and others"""
    N = NT()
    if isinstance(p, str):
        p = moduli()[p]
    base = int(base * p)
    a = h.int('a', base, base + width - 1)
    a = settle(h, a, base, base + width - 1)
    square = a == 0 or pow(a, (p - 1) // 2, p) == 1
    st, r = h.call(N.square_root_mod_prime, a, p)
    h.check(st == 'ok' if square else st == 'raise' and isinstance(r, N.SquareRootError), 'squares have a root, others are refused')
    if st == 'ok':
        h.check(0 <= r < p and r * r % p == a, 'its square is the argument')


# ---------------------------------------------------------------- Jacobi symbols

def symbol(a, n):
    """by definition: product of Legendre symbols over the factorisation"""
    s, d = 1, 3
    while n > 1:
        while n % d == 0:
            n //= d
            x = a % d
            s *= 0 if x == 0 else 1 if any(v * v % d == x for v in range(1, d)) else -1
        d += 2
    return s


def jacobi(h, n, lo, hi):
    a = h.int('a', lo, hi)
    table = [symbol(v, n) for v in range(n)]
    residue = h.run(lambda: a % n)
    st, r = h.call(NT().jacobi, a, n)
    h.check(st == 'ok', 'never fails for odd moduli')
    if st == 'ok':
        h.check(h.any(*[h.all(residue == v, r == table[v]) for v in range(n)]), 'the symbol')


def reference_symbol(a, n):
    """binary algorithm, for the replays"""
    a, s = a % n, 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5):
                s = -s
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3:
            s = -s
        a %= n
    return s if n == 1 else 0


def jacobi_step(h, bits, twos):
    """one reduction for every pair: powers of two split off and the law of reciprocity, given the symbol of the reduced pair"""
    m = h.int('m', 1, (1 << bits - 1) - 1)
    n = h.run(lambda: 2 * m + 1)
    b = h.int('b', 0, (1 << bits - 1) - 1)
    odd = h.run(lambda: 2 * b + 1)
    a = h.run(lambda: odd * (1 << twos))
    h.assume(a < n)
    N, calls = NT(), []
    if h.symbolic:
        old, started = N.jacobi, []
        j = h.int('reduced symbol', -1, 1)

        def model(x, y):
            if not started:
                started.append(1)
                return old(x, y)
            calls.append((x, y))
            return j
        h.replace(old, model)
    st, r = h.call(N.jacobi, a, n)
    h.check(st == 'ok', 'never fails for odd moduli')
    if st != 'ok':
        return
    if not h.symbolic:
        h.check(r == reference_symbol(a, n), 'the symbol')
        return
    minus = h.all(twos % 2 == 1, h.any(h.run(lambda: n % 8) == 3, h.run(lambda: n % 8) == 5))
    if not calls:
        h.check(h.all(b == 0, h.ite(minus, -1, 1) == r), 'the symbol')
        return
    (x, y), = calls
    h.check(y == odd, 'the symbol')
    h.check(h.any(h.same_known(x, n), x == h.run(lambda: n % y)), 'the symbol')
    turn = h.all(h.run(lambda: n % 4) == 3, h.run(lambda: odd % 4) == 3)
    both = h.any(h.all(minus, h.not_(turn)), h.all(turn, h.not_(minus)))
    h.check(r == h.ite(both, -j, j), 'the symbol')


# ---------------------------------------------------------------- divisors

def is_gcd(h, g, nums, top):
    """g is the greatest number dividing them all (they are at most top, not all zero)"""
    return h.any(*[h.all(g == d, *([divides(h, d, n) for n in nums] + [h.not_(h.all(*[divides(h, e, n) for n in nums])) for e in range(2 * d, top + 1, d)])) for d in range(1, top + 1)])


def gcd_two(h, a, top, form):
    b = h.int('b', 0, top)
    h.assume(h.any(a > 0, b > 0))
    N = NT()
    calls = {'ab': lambda: N.gcd(a, b), 'ba': lambda: N.gcd(b, a), 'list': lambda: N.gcd([a, b]), 'tuple': lambda: N.gcd((b, a))}
    st, g = h.call(lambda: h.run(calls[form]))
    h.check(st == 'ok', 'never fails')
    if st == 'ok':
        h.check(h.any(*[h.all(b == v, g == egcd(a, v)) for v in range(top + 1) if a or v]), 'the greatest common divisor')
    if a and st == 'ok':
        h.assume(b > 0)
        calls = {'ab': lambda: N.lcm(a, b), 'ba': lambda: N.lcm(b, a), 'list': lambda: N.lcm([a, b]), 'tuple': lambda: N.lcm((b, a))}
        st, l = h.call(lambda: h.run(calls[form]))
        h.check(st == 'ok', 'never fails')
        if st == 'ok':
            h.check(h.any(*[h.all(b == v, l == a * v // egcd(a, v)) for v in range(1, top + 1)]), 'the least common multiple')


def gcd_three(h, a, b, top, form):
    c = h.int('c', 1, top)
    N = NT()
    args = {'abc': (a, b, c), 'cab': (c, a, b), 'acb': (a, c, b)}[form]
    st, g = h.call(N.gcd, *args)
    st2, l = h.call(N.lcm, list(args))
    h.check(st == 'ok' and st2 == 'ok', 'never fails')
    if st == 'ok' and st2 == 'ok':
        lab = a * b // egcd(a, b)
        h.check(h.any(*[h.all(c == v, g == egcd(egcd(a, b), v), l == lab * v // egcd(lab, v)) for v in range(1, top + 1)]), 'of three numbers')


def single(h):
    N = NT()
    a = h.int('a', 0, 10 ** 9)
    for f in (N.gcd, N.lcm):
        h.check(h.run(f, a) == a, 'of one number')
        h.check(h.run(f, [a]) == a, 'of one number in a list')


# ---------------------------------------------------------------- factorisation

def prime(n):
    return n > 1 and all(n % d for d in range(2, int(n ** 0.5) + 1))


def factors(h, lo, hi, split=False):
    n = h.int('n', lo, hi)
    if split:
        n = settle(h, n, lo, hi)
    st, r = h.call(NT().factorization, n)
    h.check(st == 'ok', 'never fails')
    if st != 'ok':
        return
    prod, last = 1, 1
    for q, e in r:
        h.check(h.all(q > last, e >= 1), 'increasing')
        last = q
        e = settle(h, e, 0, 40) if h.is_sym(e) else e
        if h.is_sym(q):
            h.check(h.any(False, *[q == v for v in range(max(lo, 2) // max(1, prod), hi // prod + 1) if prime(v)]), 'prime')
        else:
            h.check(prime(q), 'prime')
        prod = h.run(lambda: prod * q ** e)
    h.check(h.any(n == prod, h.all(n < 2, len(r) == 0)), 'the product is the number')


# ---------------------------------------------------------------- totients, orders, primes

def big_prime(n):
    """Miller-Rabin with bases that decide every number below 3.3 * 10^24 (Sorenson and Webster), trial division below 10^6"""
    if n < 10 ** 6:
        return prime(n)
    bases = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41)
    if any(n % b == 0 for b in bases):
        return False
    s = (n - 1 & 1 - n).bit_length() - 1
    for b in bases:
        y = pow(b, n - 1 >> s, n)
        if y != 1 and all(pow(y, 1 << i, n) != n - 1 for i in range(s)):
            return False
    return True


def order_of(x, m):
    return next(e for e in range(1, m + 1) if (pow(x, e, m) - 1) % m == 0)


def coprime_part(a, b):
    import math
    return max(d for d in range(1, a + 1) if a % d == 0 and math.gcd(d, b) == 1)


def totients(h, lo, hi):
    import math
    N = NT()
    n = h.int('n', lo, hi)
    n = settle(h, n, lo, hi)
    units = [v for v in range(1, n + 1) if math.gcd(v, n) == 1]
    st, r = h.call(N.phi, n)
    h.check(st == 'ok' and r == len(units), 'phi counts the units')
    st, r = h.call(N.carmichael, n)
    h.check(st == 'ok' and r == math.lcm(*[order_of(v, n) for v in units]), 'the exponent of the group of units')


def orders(h, m):
    import math
    N = NT()
    x = h.int('x', 1, max(1, m - 1))
    x = settle(h, x, 1, max(1, m - 1))
    if m > 1 and math.gcd(x, m) == 1:
        st, r = h.call(N.order_mod, x, m)
        h.check(st == 'ok' and r == order_of(x, m), 'the order of an element')
    st, r = h.call(N.largest_factor_relatively_prime, m, x)
    h.check(st == 'ok' and r == coprime_part(m, x), 'the largest coprime factor')
    if r > x:
        st, r2 = h.call(N.kinda_order_mod, x, m)
        h.check(st == 'ok' and r2 == order_of(x, coprime_part(m, x)), 'the order modulo the coprime part')


def primes(h, lo, hi):
    N = NT()
    n = h.int('n', lo, hi)
    n = settle(h, n, lo, hi)
    st, r = h.call(N.is_prime, n)
    h.check(st == 'ok' and bool(r) == big_prime(n), 'prime exactly when it is')
    st, r = h.call(N.next_prime, n)
    h.check(st == 'ok' and r > n and big_prime(r) and not any(big_prime(v) for v in range(n + 1, r)), 'the next prime')


# ---------------------------------------------------------------- powers

def power_small(h, m, e):
    a = h.int('a', -m, 2 * m)
    residue = h.run(lambda: a % m)
    st, r = h.call(NT().modular_exp, a, e, m)
    h.check(st == 'ok', 'never fails')
    if st == 'ok':
        h.check(h.any(*[h.all(residue == v, r == pow(v, e, m)) for v in range(m)]), 'the power')


def power_large(h, which, e):
    m = moduli()[which]
    a = h.scalar('a', m)
    st, r = h.call(NT().modular_exp, a, e, m)
    h.check(st == 'ok', 'never fails')
    if st == 'ok':
        want = h.run(lambda: a ** e)
        h.check(h.all(r >= 0, r < m), 'reduced')
        h.check(h.poly(r, m)[0] == h.poly(want, m)[0] if h.symbolic else r == want % m, 'the power')


def power_negative(h):
    N = NT()
    e = h.int('e', -10 ** 30, -1)
    a = h.int('a', 0, 10 ** 30)
    st, r = h.call(N.modular_exp, a, e, 1000003)
    h.check(st == 'raise' and isinstance(r, N.NegativeExponentError), 'negative exponents are refused')


def power_exponent(h, a, m):
    e = h.int('e', 0, 40)
    st, r = h.call(NT().modular_exp, a, e, m)
    h.check(st == 'ok', 'never fails')
    if st == 'ok':
        h.check(h.any(*[h.all(e == v, r == pow(a, v, m)) for v in range(41)]), 'the power')


def instances(tier):
    deep = tier == 'thorough'
    out = []
    o = dict(branch_ms=3000, check_ms=20000)
    for m in list(range(2, 131 if deep else 41)) + [64, 97, 101, 128, 251, 256, 257]:
        out.append(Inst('inverse[%d]' % m, inverse, dict(m=m, split=m > 30), cost=1 + m // 20, **o))
    for c in ('NIST192p', 'NIST224p', 'NIST256p', 'NIST384p', 'NIST521p', 'SECP256k1'):
        for k in 'pn':
            for base in ('low', 'high', 'negative', 'beyond', 'inverses', 'quotients', 0.5, 0.3):
                if deep or c in ('SECP256k1', 'NIST521p') or base == 'negative':
                    out.append(Inst('inverse_large[%s.%s,%s]' % (c, k, base), inverse_large, dict(which=c + '.' + k, base=base, width=64), cost=1, **o))
    for p in [v for v in range(2, 151 if deep else 62) if prime(v)]:
        out.append(Inst('root[%d]' % p, root, dict(p=p, split=p > 31), cost=1 + p // 10, **o))
    for p in ('SECP256k1.p', 'NIST192p.p', 'NIST256p.p', 'NIST384p.p', 'NIST521p.p', 2 ** 255 - 19, 2 ** 107 - 1, 10 ** 18 + 381, 2 ** 200 + 1285):
        out.append(Inst('root_large[%s]' % p, root_large, dict(p=p), cost=2, branch_ms=200, check_ms=3000))
    for p in ('NIST224p.p', 2 ** 255 - 31, 10 ** 18 + 177, 1000081, 193, 257, 65537):
        for base in (0, .3):
            out.append(Inst('root_window[%s,%s]' % (p, base), root_window, dict(p=p, base=base, width=96 if deep else 24), cost=4, **o))
    for n in range(3, 128 if deep else 46, 2):
        for i, (lo, hi) in enumerate(((0, n - 1), (-n, -1), (n, 2 * n))):
            if deep or n < 30 or i == 0:
                out.append(Inst('jacobi[%d,%d]' % (n, i), jacobi, dict(n=n, lo=lo, hi=hi), cost=1 + n // 10, **o))
    for bits in (8, 16, 64, 521):
        for twos in (0, 1, 2, 3, 5):
            out.append(Inst('jacobi_step[%d,%d]' % (bits, twos), jacobi_step, dict(bits=bits, twos=twos), cost=2, **o))
    for a in (range(0, 41) if deep else (0, 1, 2, 7, 12, 16, 21, 24, 30, 31, 36, 40)):
        for form in (('ab', 'ba', 'list', 'tuple') if deep else ('ab', 'ba') if a % 2 else ('list', 'tuple')):
            out.append(Inst('gcd[%d,%s]' % (a, form), gcd_two, dict(a=a, top=40, form=form), cost=2, **o))
    for a, b in ((12, 18), (8, 36), (7, 30)):
        for form in ('abc', 'cab', 'acb'):
            out.append(Inst('gcd3[%d,%d,%s]' % (a, b, form), gcd_three, dict(a=a, b=b, top=40, form=form), cost=2, **o))
    out.append(Inst('single', single, **o))
    top = 3000 if deep else 700
    for lo in range(0, top, 50):
        out.append(Inst('factors[%d]' % lo, factors, dict(lo=lo, hi=lo + 49), cost=5, **o))
    for lo in (1229 - 6, 1229 ** 2 - 5, 1229 * 1231 - 6, 1231 ** 2 - 6, 1231 * 1237 - 3, 4 * 1231 ** 2 - 1, 1231 ** 3 - 2):
        out.append(Inst('factors[%d]' % lo, factors, dict(lo=lo, hi=lo + 12, split=True), cost=3, **o))
    for lo in range(1, 801 if deep else 241, 40):
        out.append(Inst('totients[%d]' % lo, totients, dict(lo=lo, hi=lo + 39), cost=2, **o))
    for m in (range(1, 150) if deep else (1, 2, 3, 8, 12, 17, 24, 30, 49, 60, 64, 97, 105)):
        out.append(Inst('orders[%d]' % m, orders, dict(m=m), cost=1, **o))
    for lo in list(range(0, 2000 if deep else 100, 40)) + [1210, 1720, 2810, 6590, 8905, 10575, 29330, 1229 ** 2 - 20, 1231 * 1237 - 20, 25325990, 10 ** 9, 3215031740, 2 ** 61 - 20, 3825123056546413030, 2 ** 80]:
        out.append(Inst('primes[%d]' % lo, primes, dict(lo=lo, hi=lo + 39), cost=1, **o))
    for m in (1, 2, 7, 12, 16):
        for e in ((0, 1, 2, 3, 5, 12) if deep else (0, 1, 3, 5)):
            out.append(Inst('power[%d,%d]' % (m, e), power_small, dict(m=m, e=e), cost=2, **o))
    for which in ('SECP256k1.p', 'NIST521p.n'):
        for e in (0, 1, 2, 3, 6, 12):
            out.append(Inst('power[%s,%d]' % (which, e), power_large, dict(which=which, e=e), **o))
    out.append(Inst('power_negative', power_negative, **o))
    for a, m in ((3, 7), (10, 1000003), (0, 9), (-2, 13)):
        out.append(Inst('power_exponent[%d,%d]' % (a, m), power_exponent, dict(a=a, m=m), cost=2, **o))
    return out
