"""Stand-ins for what the node code talks to: the event loop base class (asyncore, which recent Pythons no longer ship), sockets,
the clock and random numbers. Written from the documentation of asyncore: nothing here touches a real socket."""
import errno
import sys
import types

GONE = (errno.ECONNRESET, errno.ENOTCONN, errno.ESHUTDOWN, errno.ECONNABORTED, errno.EPIPE, errno.EBADF)


class Socket(object):
    """inbox: what each read returns (bytes, or an exception to raise); outbox: what each write does (how many bytes it takes, or an
    exception to raise), everything once exhausted"""
    count = 0

    def __init__(self, address=('127.0.0.1', 20303)):
        Socket.count += 1
        self.fd = 100 + Socket.count
        self.address = address
        self.inbox, self.outbox, self.sent, self.attempts, self.closed = [], [], [], 0, 0
        self.queue = []
        self.taker = None

    def fileno(self):
        return self.fd

    def recv(self, n):
        if not self.inbox:
            return b''
        x = self.inbox.pop(0)
        if isinstance(x, Exception):
            raise x
        return x

    def send(self, data):
        self.attempts += 1
        n = self.taker(data)
        self.sent.append(data[:n])
        return n

    def close(self):
        self.closed += 1

    def getsockname(self):
        return self.address

    def accept(self):
        return self.queue.pop(0)


class World(object):
    refuse = ()         # addresses that refuse connections (filled by the harness)

    def __init__(self):
        self.made = []
        self.connected_to = []


world = World()


class dispatcher(object):
    connected = accepting = connecting = closing = False
    addr = None

    def __init__(self, sock=None, map=None):
        self._map = map
        self._fileno = None
        if sock:
            self.set_socket(sock, map)
            self.connected = True
            self.addr = sock.address
        else:
            self.socket = None

    def add_channel(self, map=None):
        self._map[self._fileno] = self

    def del_channel(self, map=None):
        if self._fileno in self._map:
            del self._map[self._fileno]
        self._fileno = None

    def create_socket(self, family=None, type=None):
        s = Socket()
        world.made.append(s)
        self.set_socket(s)

    def set_socket(self, sock, map=None):
        self.socket = sock
        self._fileno = sock.fileno()
        self.add_channel(map)

    def set_reuse_addr(self):
        pass

    def readable(self):
        return True

    def writable(self):
        return True

    def listen(self, num):
        self.accepting = True

    def bind(self, addr):
        self.addr = addr

    def connect(self, address):
        self.connected = False
        self.connecting = True
        world.connected_to.append(address)
        if world.refuse and world.refuse(address):
            raise OSError(errno.ENETUNREACH, 'unreachable')
        self.addr = address
        self.connected = True
        self.connecting = False

    def accept(self):
        return self.socket.accept()

    def send(self, data):
        try:
            return self.socket.send(data)
        except OSError as e:
            if e.args[0] == errno.EWOULDBLOCK:
                return 0
            if e.args[0] in GONE:
                self.handle_close()
                return 0
            raise

    def recv(self, n):
        try:
            data = self.socket.recv(n)
            if not len(data):
                self.handle_close()
                return b''
            return data
        except OSError as e:
            if e.args[0] in GONE:
                self.handle_close()
                return b''
            raise

    def close(self):
        self.connected = self.accepting = self.connecting = False
        self.del_channel()
        if self.socket is not None:
            self.socket.close()

    def handle_read(self):
        pass

    def handle_write(self):
        pass

    def handle_accept(self):
        pass

    def handle_close(self):
        self.close()

    def __getattr__(self, name):
        if name == 'socket':
            raise AttributeError(name)
        s = self.__dict__.get('socket')
        if s is None:
            raise AttributeError(name)
        return getattr(s, name)


def install():
    """the event loop module the node code imports is this one"""
    m = types.ModuleType('asyncore')
    m.dispatcher = dispatcher
    m.loop = lambda *a, **k: None
    sys.modules['asyncore'] = m


class Clock(object):
    """one reading per event: time stands still inside a call"""

    def __init__(self, h, start=1700000000.0):
        import builtins
        import os
        import random
        import time
        import nbc.node.basenode
        import nbc.node.connection
        self.t = start
        show = builtins.print

        def quiet(*a, **k):
            if k.get('file') not in (None, sys.stdout):
                show(*a, **k)
        self.random = []         # answers of randint, in turn
        self.last = []
        real = [(time, 'time', lambda: self.t), (time, 'monotonic', lambda: self.t), (random, 'randint', self.randint),
                (random, 'randrange', lambda a, b=None: self.randint(0 if b is None else a, (a if b is None else b) - 1)),
                (random, 'choice', lambda seq: seq[self.randint(0, len(seq) - 1)]), (random, 'random', lambda: 0.5),
                (os, 'urandom', self.urandom), (builtins, 'print', quiet)]
        old = {id(getattr(mod, name)): fn for mod, name, fn in real}
        for name, mod in list(sys.modules.items()):
            if name.startswith('nbc.node'):
                for k, v in list(vars(mod).items()):
                    if callable(v) and id(v) in old:
                        h.stub(mod, k, old[id(v)])
        for mod, name, fn in real:
            h.stub(mod, name, fn)
        self.h = h
        self.nonces = []
        world.made, world.connected_to, world.refuse = [], [], None

    def randint(self, a, b):
        return self.random.pop(0)(a, b) if self.random else b

    def urandom(self, n):
        v = self.h.noise('urandom%d' % len(self.nonces), n)
        self.nonces.append(v)
        return v


def make_node(h, cls=None, **kw):
    from nbc.node import basenode
    kw.setdefault('address', ('127.0.0.1', 20303))
    kw.setdefault('log', None)
    kw.setdefault('data_dir', '/nonexistent')
    return h.run(cls or basenode.BaseNode, **kw)


def make_peer(h, node, address=('10.0.0.1', 8333)):
    """an incoming connection with its greeting already written"""
    from nbc.node import connection
    s = Socket(address)
    s.taker = lambda data: h.len(data)
    c = h.run(connection.Connection, node=node, sock=s, address=address)
    h.run(c.handle_write)
    return c, s


def frame(h, magic, command, payload):
    head = h.concat(magic, command.encode() + bytes(12 - len(command)), h.len(payload).to_bytes(4, 'little'))
    return h.concat(head, h.sha('sha256', h.sha('sha256', payload))[:4], payload)


class Asker(object):
    """a peer that records what it is told"""

    def __init__(self):
        self.told = []

    def send_message(self, m):
        self.told.append(m)


def teach(h, node, entries):
    """entries: (ip, port, timestamp, services), as a peer would announce them"""
    from nbc.protocol import format as F
    h.run(node.command_address, Asker(), [h.run(F.NetworkAddress, t, s, ip, port) for ip, port, t, s in entries])


def book(h, node):
    """what the node answers when asked for addresses"""
    a = Asker()
    h.run(node.command_get_address, a)
    return a.told[0].addr_list if len(a.told) == 1 else None


def arrive(h, node, address):
    """somebody connects -> (connection or None, socket)"""
    s = Socket(address)
    s.taker = lambda data: h.len(data)
    before = list(node.values())
    node.socket.queue.append((s, address))
    h.run(node.handle_accept)
    new = [p for p in node.values() if not any(p is q for q in before)]
    return (new[0] if new else None), s
