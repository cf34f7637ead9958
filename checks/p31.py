"""Discovery: seeds, coin lookup and height estimates report exactly what was found."""
import json
from symx.inst import Inst

BOUNDS = ('1-2 seeds with 0-2 addresses each or failing, 3 seeds (thorough: 4) of 0-2, 0-1, .. addresses, in every order of arrival around the pops, every choice of what is popped; coin names and '
          'symbols of 0-11 arbitrary printable characters; JSON answers nested up to three levels (objects and lists, every integer below 2^64 in size as value), paths that '
          'lead to a value, nowhere, or past one; 1-3 sources of heights (thorough: 4), each in time, late, failing or silent, every duration')
OUTSIDE = 'the resolver, the HTTP client and the JSON parser themselves; real thread preemption inside a locked section'
ASSUMPTIONS = ['threads are units that run from start to end at a chosen moment (the code shares data only under its lock)', 'a timed wait lasts at most its timeout']


def quiet(h):
    import builtins
    h.stub(builtins, 'print', lambda *a, **k: None)


class Threads(object):
    """thread stand-in: a thread runs when the schedule says so"""

    def __init__(self, h, at_start):
        self.h, self.at_start, self.all = h, at_start, []
        self.now = 1700000000.0
        outer = self

        class Thread(object):
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
                self.target, self.args, self.kwargs, self.daemon = target, args, kwargs or {}, daemon
                self.done = self.started = False
                outer.all.append(self)

            def setDaemon(self, v):
                self.daemon = v

            def start(self):
                self.started = True
                if outer.at_start(len(outer.all) - 1):
                    self.finish()

            def is_alive(self):
                return self.started and not self.done

            def finish(self):
                if not self.done:
                    self.done = True
                    outer.h.run(self.target, *self.args, **self.kwargs)

            def join(self, timeout=None):
                if not self.done:
                    outer.wait(self, timeout)
        self.Thread = Thread
        import threading
        quiet(h)
        h.stub(threading, 'Thread', Thread)


# ------------------------------------------------------------- seeds
def seeds(h, n):
    import random
    import socket
    from nbc.util import bootstrap
    found = []
    plan = []
    for i in range(n):
        what = h.choice('seed%d' % i, ['none', 'one', 'two', 'fails'] if n < 3 else ['two', 'none'] if i == 0 else ['one', 'fails'])
        plan.append([] if what == 'none' else None if what == 'fails' else
                    [('%d.0.0.%d' % (i + 1, j + 1), h.int('port%d%d' % (i, j), 1, 65535)) for j in range(1 if what == 'one' else 2)])
    names = [('seed%d.example' % i, 8333) for i in range(n)]

    def resolve(host, port, *a, **k):
        i = [x[0] for x in names].index(host)
        h.check(port == 8333, 'the seed is asked for its port')
        if plan[i] is None:
            raise socket.gaierror('no such host')
        found.extend(plan[i])
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, '', p) for p in plan[i]]
    early = [h.bool('early%d' % i) for i in range(n)]
    t = Threads(h, lambda i: early[i])
    h.stub(socket, 'getaddrinfo', resolve)
    picks = []

    def choose(seq):
        if len(seq) == 0:
            raise IndexError('Cannot choose from an empty sequence')
        picks.append(h.choice('pick%d.%d' % (len(picks), len(seq)), list(range(len(seq)))))
        return seq[picks[-1]]
    h.stub(random, 'choice', choose)
    given = list(names)
    st, s = h.call(bootstrap.DNSSeeder, given)
    h.check(st == 'ok', 'seeds are asked whatever they answer')
    if st != 'ok':
        return
    h.check(given == names, 'the list of seeds is not changed')
    popped = []

    def pop():
        left = [f for f in found if not any(f is p for p in popped)]
        h.check(h.run(len, s) == len(left), 'as many addresses as were found and not taken')
        st, a = h.call(s.pop)
        if not left:
            h.check(st == 'raise', 'nothing left to take')
            return
        h.check(st == 'ok', 'an address is left to take')
        if st != 'ok':
            return
        for f in left:
            if a[0] == f[0]:
                h.check(a[1] == f[1], 'the address with its port')
                popped.append(f)
                return
        h.check(False, 'only found addresses, each once')
    if h.bool('pop early'):
        pop()
    for th in t.all:
        th.finish()
    for i in range(2 * n + 1):
        pop()
    h.check(len(popped) == len(found), 'every found address is handed out')


# ------------------------------------------------------------- coins
def coin(h, n, by):
    from nbc import coins
    t = h.str('t', n, 32, 126)
    want = b'newbitcoin' if by == 'name' else b'nbc'
    st, c = h.call(coins.get_coin, **{by: t})
    h.check(st == 'ok', 'a lookup does not fail')
    if st != 'ok':
        return
    same = n == len(want) and h.all(*[h.any(a == w, a == w - 32) for a, w in zip(h.cells(t), want)])
    if c is None:
        h.check(h.not_(same), 'the coin is found')
    else:
        h.check(same, 'only by its own ' + by)
        h.check(c is coins.Newbitcoin, 'the coin')


# ------------------------------------------------------------- JSON answers
def tree(h, shape):
    v = [h.int('v%d' % i, -2 ** 64, 2 ** 64) for i in range(3)]
    if shape == 'flat':
        return {'height': v[0], 'other': v[1]}, ['height', 'other', 'missing', 'height/0', '0'], v
    if shape == 'list':
        return [v[0], v[1]], ['0', '1', '2', 'x'], v
    if shape == 'deep':
        return {'data': {'last': {'nb': v[0], 'x': v[1]}, 'nb': v[2]}}, ['data/last/nb', 'data/nb', 'data/last', 'data/x/nb', 'nb', 'data/nb/x'], v
    if shape == 'mixed':
        return {'data': [{'nb': v[0]}, {'nb': v[1]}, [v[2]]]}, ['data/0/nb', 'data/1/nb', 'data/2/0', 'data/3/nb', 'data/nb', 'data/2/nb'], v
    return v[0], ['x', '0'], v


def lookup(data, path):
    for c in path.split('/'):
        if isinstance(data, dict):
            if c not in data:
                return None
            data = data[c]
        elif isinstance(data, list):
            if not c.isdigit() or int(c) >= len(data):
                return None
            data = data[int(c)]
        else:
            return None
    return data if not isinstance(data, (dict, list)) else None


class Answer(object):
    def __init__(self, data):
        self.data = data

    def read(self, *a):
        return self.data


def json_path(h, shape):
    from nbc import util
    quiet(h)
    data, paths, v = tree(h, shape)
    path = h.choice('path', paths)
    asked = []

    def opener(req, *a, **k):
        asked.append(req)
        return Answer(data if h.symbolic else json.dumps(data).encode())
    h.stub(util.urllib2, 'urlopen', opener)
    h.only_symbolic_stub(util.json, 'loads', lambda s, *a, **k: s)
    f = h.run(util.fetch_url_json_path_int, 'https://example.org/x', path)
    h.check(not asked, 'nothing is fetched before it is asked for')
    st, r = h.call(f)
    h.check(st == 'ok', 'an answer never fails')
    if st != 'ok':
        return
    h.check(len(asked) == 1 and asked[0].get_full_url() == 'https://example.org/x', 'the page is fetched once')
    want = lookup(data, path)
    if want is None:
        h.check(r is None, 'nothing at the path: no height')
    else:
        h.check(r is not None, 'a height at the path is found')
        if r is not None:
            h.check(r == want, 'the height at the path')


def plain(h, n):
    from nbc import util
    quiet(h)
    d = h.bytes('digits', n)
    for c in h.cells(d):
        h.assume(h.any(h.all(c >= 48, c <= 57), h.all(c >= 97, c <= 122)))
    h.stub(util.urllib2, 'urlopen', lambda req, *a, **k: Answer(d))
    f = h.run(util.fetch_url_int, 'https://example.org/q')
    st, r = h.call(f)
    h.check(st == 'ok', 'an answer never fails')
    if st != 'ok':
        return
    good = h.all(*[h.all(c >= 48, c <= 57) for c in h.cells(d)]) if n else False
    if r is None:
        h.check(h.not_(good), 'a number is a height')
    else:
        h.check(good, 'only a number is a height')
        v = 0
        for c in h.cells(d):
            v = v * 10 + (c - 48)
        h.check(r == v, 'the number')


# ------------------------------------------------------------- estimates
def guess(h, n):
    import time
    from nbc import util
    kinds = [h.choice('kind%d' % i, ['answers', 'fails', 'nothing']) for i in range(n)]
    value = [h.int('height%d' % i, 0, 2 ** 40) for i in range(n)]
    early = [h.bool('early%d' % i) for i in range(n)]
    done = []

    def source(i):
        def f():
            done.append(i)
            if kinds[i] == 'fails':
                raise IOError('unreachable')
            return value[i] if kinds[i] == 'answers' else None
        return f
    timeout = h.real('timeout', 0, 100)
    t = Threads(h, lambda i: early[i])
    waits = []

    def wait(th, limit):
        if limit is None:
            h.check(False, 'no wait without end')
            th.finish()
            return
        i = len(waits)
        waits.append(th)
        spent = limit if limit > 0 else 0.0
        if h.bool('finishes%d' % i):
            d = h.real('after%d' % i, 0, 200)
            h.assume(d <= spent)
            t.now = t.now + d
            th.finish()
        else:
            t.now = t.now + spent
    t.wait = wait
    h.stub(time, 'time', lambda: t.now)
    h.stub(time, 'monotonic', lambda: t.now)

    class Coin(object):
        block_height_guess = [('source%d' % i, source(i)) for i in range(n)]
    start = t.now
    st, r = h.call(util.guess_block_height, Coin, timeout)
    h.check(st == 'ok', 'an estimate never fails')
    if st != 'ok':
        return
    h.check(t.now - start <= timeout, 'within the timeout')
    if len(set(done)) < n:
        h.check(t.now - start >= timeout, 'silent sources are waited for')
    want = {'source%d' % i: (value[i] if kinds[i] == 'answers' else None) for i in done if kinds[i] != 'fails'}

    def same(label):
        h.check(sorted(r) == sorted(want), label + ': exactly the sources that answered')
        for k in want:
            if k in r:
                h.check((r[k] is None) == (want[k] is None), label + ': their answers')
                if r[k] is not None and want[k] is not None:
                    h.check(r[k] == want[k], label + ': each its own height')
    same('estimate')
    h.check(len(done) == len(set(done)), 'each source is asked once')
    for th in t.all:
        th.finish()
    same('after late answers')


def instances(tier):
    deep = tier == 'thorough'
    out = []
    for n in range(1, 5 if deep else 4):
        out.append(Inst('seeds[%d]' % n, seeds, dict(n=n), cost=n * 30, max_paths=60000))
        out.append(Inst('guess[%d]' % n, guess, dict(n=n), cost=n * 30, max_paths=60000))
    for n in (0, 1, 2, 3, 4, 9, 10, 11):
        out.append(Inst('name[%d]' % n, coin, dict(n=n, by='name')))
        if n < 5:
            out.append(Inst('symbol[%d]' % n, coin, dict(n=n, by='symbol')))
    for s in ('flat', 'list', 'deep', 'mixed', 'scalar'):
        out.append(Inst('json[%s]' % s, json_path, dict(shape=s)))
    for n in range(0, 6):
        out.append(Inst('plain[%d]' % n, plain, dict(n=n)))
    return out
