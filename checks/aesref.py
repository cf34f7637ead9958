"""FIPS-197 written out from the standard: byte state, SubBytes, ShiftRows, MixColumns, key expansion by words."""


def gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = (a << 1) ^ (0x11b if a & 128 else 0)
        b >>= 1
    return r


def _sbox():
    s = []
    for x in range(256):
        inv = 0
        for y in range(256):
            if gmul(x, y) == 1:
                inv = y
        r = 0
        for i in range(8):
            b = (inv >> i) ^ (inv >> (i + 4) % 8) ^ (inv >> (i + 5) % 8) ^ (inv >> (i + 6) % 8) ^ (inv >> (i + 7) % 8) ^ (0x63 >> i)
            r |= (b & 1) << i
        s.append(r)
    return s


SBOX = _sbox()
INV = [0] * 256
for _i, _v in enumerate(SBOX):
    INV[_v] = _i
MUL = {k: [gmul(x, k) for x in range(256)] for k in (2, 3, 9, 11, 13, 14)}


def LOOK(t, i):
    return t[i]


def use(h):
    global LOOK
    LOOK = h.item


def expand(key):
    nk = len(key) // 4
    nr = nk + 6
    w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
    rcon = 1
    for i in range(nk, 4 * (nr + 1)):
        t = list(w[i - 1])
        if i % nk == 0:
            t = [LOOK(SBOX, x) for x in t[1:] + t[:1]]
            t[0] = t[0] ^ rcon
            rcon = gmul(rcon, 2)
        elif nk > 6 and i % nk == 4:
            t = [LOOK(SBOX, x) for x in t]
        w.append([a ^ b for a, b in zip(w[i - nk], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(nr + 1)]


def add(s, k):
    return [a ^ b for a, b in zip(s, k)]


def encrypt(key, block):
    rk = expand(key)
    s = add(list(block), rk[0])
    for r in range(1, len(rk)):
        s = [LOOK(SBOX, x) for x in s]
        s = [s[4 * ((c + i) % 4) + i] for c in range(4) for i in range(4)]
        if r < len(rk) - 1:
            t = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                t += [LOOK(MUL[2], a[i]) ^ LOOK(MUL[3], a[(i + 1) % 4]) ^ a[(i + 2) % 4] ^ a[(i + 3) % 4] for i in range(4)]
            s = t
        s = add(s, rk[r])
    return s


def decrypt(key, block):
    rk = expand(key)
    s = add(list(block), rk[-1])
    for r in range(len(rk) - 2, -1, -1):
        s = [s[4 * ((c - i) % 4) + i] for c in range(4) for i in range(4)]
        s = [LOOK(INV, x) for x in s]
        s = add(s, rk[r])
        if r:
            t = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                t += [LOOK(MUL[14], a[i]) ^ LOOK(MUL[11], a[(i + 1) % 4]) ^ LOOK(MUL[13], a[(i + 2) % 4]) ^ LOOK(MUL[9], a[(i + 3) % 4]) for i in range(4)]
            s = t
    return s
