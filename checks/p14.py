"""A saved wallet loads back the same, and a failed save loses nothing."""
from symx.inst import Inst
import b58model
import ecmodel
import fsmodel
import p13
import p15
N = ecmodel.N

BOUNDS = ('every private key, public key, chain code, depth, child number, parent fingerprint, chain number and network; passphrases of 0, 1, 15, 16, 17 and 40 '
          'bytes (quick) / 0-40 (thorough), given as bytes or text when loading; an error or a stop of the machine at any of the first 16 file operations, '
          'with and without a previous file, unsynced data lost or kept')
OUTSIDE = 'the AES block function (P23), base58 (P10) and JSON text are used as their contracts; directory durability after a rename; concurrent savers'
ASSUMPTIONS = ['the AES block cipher is a keyed bijection', 'json.loads(json.dumps(x)) == x for JSON values',
               'rename is atomic; data is durable once fsync returned', 'secp256k1 is an abstract group of prime order n']
NAME = '/nonexistent-p14/wallet.json'


def aes_model(h):
    """the block cipher as a keyed bijection (symbolic runs)"""
    if not h.symbolic:
        return
    from nbc.util.pyaes import aes
    pairs = []

    def init(self, key):
        if len(key) not in (16, 24, 32):
            raise ValueError('Invalid key size')
        self._sx_key = h.from_cells('b', h.cells(key))

    def blk(x):
        return h.from_cells('b', list(x) if isinstance(x, (list, tuple)) else h.cells(x))

    def same(a, b):
        a, b = h.cells(a), h.cells(b)
        return len(a) == len(b) and all(h.same_known(x, y) for x, y in zip(a, b))

    def enc(self, p):
        if len(p) != 16:
            raise ValueError('wrong block length')
        p = blk(p)
        c = h.uf('aesE', 16, self._sx_key, p)
        pairs.append((self._sx_key, p, c))
        return list(h.cells(c))

    def dec(self, c):
        if len(c) != 16:
            raise ValueError('wrong block length')
        c = blk(c)
        for k, p, c2 in pairs:
            if same(k, self._sx_key) and same(c, c2):
                return list(h.cells(p))
        return list(h.cells(h.uf('aesD', 16, self._sx_key, c)))
    for n, f in (('__init__', init), ('encrypt', enc), ('decrypt', dec)):
        h.only_symbolic_stub(aes.AES, n, f)


def cbc(h, key, data):
    """reference CBC encryption with a zero IV of zero-padded data"""
    from nbc.util.pyaes import aes
    key = h.cells(key)[:16]
    key = h.from_cells('b', key + [0] * (16 - len(key)))
    cs = h.cells(data)
    cs += [0] * (-len(cs) % 16)
    a, last, out = h.run(aes.AES, key), [0] * 16, []
    for i in range(0, len(cs), 16):
        last = list(h.run(a.encrypt, [h.run(lambda x=x, y=y: x ^ y) for x, y in zip(cs[i:i + 16], last)]))
        out += last
    return h.from_cells('b', out)


def json_model(h, seen):
    """dumps gives a text that stands for the value"""
    import json
    if not h.symbolic:
        real = json.dumps

        def watch(v, *a, **k):
            seen.append(v)
            return real(v, *a, **k)
        h.stub(json, 'dumps', watch)
        return
    texts = {}

    def check(v):
        if v is None or isinstance(v, (bool, int, float, str)) and not isinstance(v, bytes):
            return v
        if isinstance(v, bytes):
            raise TypeError('Object of type bytes is not JSON serializable')
        if isinstance(v, (list, tuple)):
            return [check(x) for x in v]
        if isinstance(v, dict):
            return {k: check(x) for k, x in v.items()}
        raise TypeError('Object of type %s is not JSON serializable' % type(v).__name__)

    def dumps(v, *a, **k):
        seen.append(v)
        t = '<json %d %s>' % (len(texts), 'x' * 20)
        texts[t] = check(v)
        return t

    def loads(t, *a, **k):
        if isinstance(t, bytes):
            t = t.decode('utf-8')
        if not h.is_sym(t) and t in texts:
            return check(texts[t])
        raise json.JSONDecodeError('not a wallet', str(t), 0)
    h.replace(json.dumps, dumps)
    h.replace(json.loads, loads)
    h.replace(json.dump, lambda v, f, *a, **k: f.write(dumps(v)))
    h.replace(json.load, lambda f, *a, **k: loads(f.read()))


class World(object):
    def __init__(self, h, kind='none', at=None):
        self.h, self.seen = h, []
        self.ec = ecmodel.EC(h)
        b58model.install(h)
        aes_model(h)
        import nbc.wallet
        self.wallet = nbc.wallet
        json_model(h, self.seen)
        self.fs = fsmodel.FS(h, kind, at)


def make(h, w, what, tag=''):
    """(wallet, how to compare, secret bytes or None)"""
    from nbc.wallet.address import Address
    from nbc.util import key
    ec = w.ec
    k, vcn, testnet = h.scalar(tag + 'k', N), h.int(tag + 'vcn', 0, 65535), h.choice(tag + 'testnet', [False, True])
    kb = h.to_be(k, 32)
    if what.startswith('hd'):
        private = what == 'hdprv'
        chain = h.noise(tag + 'chain', 32)
        a = dict(vcn=vcn, testnet=testnet, depth=h.int(tag + 'depth', 0, 255), parentfp=h.noise(tag + 'fp', 4), childnum=h.int(tag + 'cn', 0, 2 ** 32 - 1))
        x = p15.wallet(h, ec, k, chain, private, a)

        def same(y, label):
            fp = h.run(x.parentfp)
            p15.same_wallet(h, ec, y, k, chain, private, vcn, testnet, a['depth'], fp, a['childnum'], label)
            h.check(h.eq(h.run(y.address), h.run(x.address)), label + ': address')
        return x, same, (kb, kb) if private else None
    comp = what[1] == 'c'
    if what[0] == 's':
        x = h.run(Address, privKey=h.run(key.privkey_to_wif, h.concat(kb, b'\1') if comp else kb), vcn=vcn, testnet=testnet)
    else:
        full, c = p13.forms(h, *ec.xy(k))
        x = h.run(Address, pubKey=c if comp else full, vcn=vcn, testnet=testnet)

    def same(y, label):
        h.check(y is not None and (y.privKey is None) == (x.privKey is None), label + ': private or not')
        if x.privKey is not None:
            h.check(h.eq(y.privKey, x.privKey), label + ': private key')
        h.check(h.eq(y.pubKey, x.pubKey), label + ': public key')
        h.check(h.eq(y.address, x.address), label + ': address')
        h.check(y.vcn == x.vcn and y.testnet == x.testnet and y.compressed == x.compressed, label + ': chain number, network and form')
    return x, same, (x.privKey, kb) if what[0] == 's' else None


def hexed(h, v):
    from binascii import hexlify
    t = h.run(hexlify, v)
    return h.from_cells('s', h.cells(t))


def no_secret(h, rec, secret, kb, phrase, label):
    """nothing in the record but the ciphertext depends on the private key"""
    cells = h.cells(secret)
    n = len(cells)
    head = ('%02x' % n).encode()
    enc = hexed(h, cbc(h, phrase, h.concat(head, secret)))
    for name, v in sorted(rec.items()):
        if name == 'prvkey':
            h.check(h.eq(v, enc), label + ': the private key is stored encrypted under the passphrase')
        elif isinstance(v, (str, bytes)):
            for plain in (secret, hexed(h, secret), kb, hexed(h, kb)):
                m, t = h.cells(plain), h.cells(v)
                for i in range(len(t) - len(m) + 1):
                    if all(h.same_known(a, b) for a, b in zip(m, t[i:])):
                        h.check(False, label + ': the private key is in the file in clear')


def roundtrip(h, what, plen, as_text=False):
    w = World(h)
    x, same, secret = make(h, w, what)
    phrase = h.bytes('phrase', plen) if plen else b''
    st, e = h.call(w.wallet.saveTo, NAME, x, phrase)
    h.check(st == 'ok', 'a wallet saves')
    if st != 'ok':
        return
    h.check(NAME in w.fs.files, 'the file is there')
    rec = w.seen[-1]
    if secret is not None and plen:
        no_secret(h, rec, secret[0], secret[1], phrase, 'encrypted')
    again = h.from_cells('s', h.cells(phrase)) if as_text else phrase
    st, y = h.call(w.wallet.loadFrom, NAME, again)
    h.check(st == 'ok', 'a saved wallet loads')
    if st == 'ok':
        h.check(type(y) is type(x), 'the same kind of wallet')
        same(y, 'loaded')


def crash(h, what, kind, previous, plen):
    at = h.int('at', 0, 15)
    w = World(h, kind, at)
    x, same, secret = make(h, w, what)
    phrase = h.bytes('phrase', plen) if plen else b''
    OLD = '{"previous": "wallet"}'
    if previous:
        w.fs.files[NAME] = fsmodel.Data([OLD])
    try:
        st, e = h.call(w.wallet.saveTo, NAME, x, phrase)
    except fsmodel.PowerCut:
        st, e = 'cut', None
    hit = w.fs.hit
    w.fs.reboot()
    t = w.fs.text(NAME)
    if previous:
        h.check(t is not None, 'the wallet file is still there')
    else:
        h.check(t is None or True, 'no file')
    if st == 'ok':
        h.check(not (hit and kind == 'error' and t == OLD), 'a save that failed says so')
        h.check(t != OLD, 'saved')
    old = t is None and not previous or previous and t is not None and t == OLD
    if not old:
        st2, y = h.call(w.wallet.loadFrom, NAME, phrase)
        h.check(st2 == 'ok', 'the file holds a complete wallet')
        if st2 == 'ok':
            same(y, 'new wallet')
    st3, e = h.call(w.wallet.saveTo, NAME, x, phrase)
    h.check(st3 == 'ok', 'saving again works')
    st2, y = h.call(w.wallet.loadFrom, NAME, phrase)
    h.check(st2 == 'ok', 'and loads')
    if st2 == 'ok':
        same(y, 'saved again')


def instances(tier):
    out = []
    o = dict(alts=6, branch_ms=1500, check_ms=30000)
    kinds = ['sc', 'su', 'pc', 'pu', 'hdprv', 'hdpub']
    for k in kinds:
        for n in (0, 1, 15, 16, 17, 40) if tier == 'quick' else range(41):
            if n and k in ('pc', 'pu', 'hdpub') and n not in (1, 16):
                continue
            out.append(Inst('roundtrip[%s,%d]' % (k, n), roundtrip, dict(what=k, plen=n), **o))
        if k in ('sc', 'su', 'hdprv'):
            out.append(Inst('roundtrip[%s,5,text]' % k, roundtrip, dict(what=k, plen=5, as_text=True), **o))
        for f in ('error', 'power'):
            for prev in (True, False):
                if k in ('sc', 'hdprv', 'pu') or tier == 'thorough':
                    out.append(Inst('crash[%s,%s,%s]' % (k, f, prev), crash, dict(what=k, kind=f, previous=prev, plen=8 if k == 'sc' else 0), **o))
    return out
