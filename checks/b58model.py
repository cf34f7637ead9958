"""Base58 as its contract, for the code built on top of it (P10 decides the real functions).

Symbolic runs: encoding gives an opaque text remembered together with the bytes it stands for, and
decoding such a text gives those bytes back; texts made any other way go through the real decoder.
Replays use the real code only."""


def text_len(n):
    return (n * 138 + 99) // 100


def install(h):
    if not h.symbolic:
        return
    from nbc.util import base58
    real_enc, real_dec = base58.b58encode, base58.b58decode
    known = []

    def enc(v):
        if not h.is_sym(v):
            return real_enc(v)
        cs = h.cells(v)
        # private key texts: 51 characters from '5', or 52 from 'K' or 'L' (decided by P11)
        wif = not h.is_sym(cs[0]) and cs[0] == 0x80 and (len(cs) == 37 or len(cs) == 38 and not h.is_sym(cs[33]) and cs[33] == 1)
        text = h.uf('b58', 51 if wif and len(cs) == 37 else text_len(len(cs)), v)
        for c in h.cells(text):
            h.fact(h.all(c >= 49, c <= 122), about=c)
        if wif:
            c = h.cells(text)[0]
            h.fact(c == 53 if len(cs) == 37 else h.any(c == 75, c == 76), about=c)
        known.append((text, v))
        return text

    def dec(t):
        if h.is_sym(t):
            cs = h.cells(t)
            for text, raw in known:
                ks = h.cells(text)
                if len(ks) == len(cs) and all(h.same_known(a, b) for a, b in zip(ks, cs)):
                    return raw
        return real_dec(t)
    h.replace(real_enc, enc)
    h.replace(real_dec, dec)
