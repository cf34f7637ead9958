"""A small file system with faults, standing in for the real one.

Every file operation of the code under test runs against this model: an operation can fail with an
error, or the machine can stop at it.  Data written but not synced may be lost when it stops; a
rename is atomic.  Nothing outside the model is touched."""
import builtins
import io
import os

TORN = '<torn>'


class PowerCut(BaseException):
    pass


class Data(object):
    def __init__(self, chunks=(), synced=True):
        self.chunks, self.synced = list(chunks), synced


class Handle(object):
    def __init__(self, fs, path, data, mode):
        self.fs, self.path, self.data, self.mode, self.buf, self.closed, self.pos = fs, path, data, mode, [], False, 0
        self.name = path
        self.fd = fs.next_fd
        fs.next_fd += 1
        fs.fds[self.fd] = self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def fileno(self):
        return self.fd

    def write(self, s):
        if self.closed:
            raise ValueError('closed')
        if 'r' in self.mode and '+' not in self.mode:
            raise io.UnsupportedOperation('not writable')
        self.fs.step('write', self)
        self.buf.append(s)
        return len(s) if isinstance(s, (str, bytes)) and not self.fs.h.is_sym(s) else 1

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def flush(self):
        if self.buf:
            self.fs.step('flush', self)
            self.data.chunks += self.buf
            self.data.synced = False
            self.buf = []

    def truncate(self, n=None):
        self.fs.step('truncate', self)
        self.data.chunks, self.data.synced = [], False

    def seek(self, *a):
        pass

    def read(self, *a):
        self.flush()
        c = self.data.chunks
        if not c:
            return b'' if 'b' in self.mode else ''
        r = self.fs.h.concat(*c)
        if 'b' in self.mode and isinstance(r, str):
            r = r.encode('utf-8')
        elif 'b' not in self.mode and isinstance(r, bytes):
            r = r.decode('utf-8')
        return r

    def close(self):
        if not self.closed:
            self.closed = True
            self.flush()


class FS(object):
    def __init__(self, h, kind='none', at=None):
        self.h, self.kind, self.at, self.n, self.dead = h, kind, at, 0, False
        self.files, self.fds, self.next_fd, self.ops, self.hit = {}, {}, 100, [], False
        for obj, name, f in ((builtins, 'open', self.open), (io, 'open', self.open), (os, 'fsync', self.fsync), (os, 'fdatasync', self.fsync),
                             (os, 'replace', self.rename), (os, 'rename', self.rename), (os, 'remove', self.remove), (os, 'unlink', self.remove),
                             (os.path, 'exists', self.exists), (os.path, 'isfile', self.exists), (os, 'open', self.os_open),
                             (os, 'write', self.os_write), (os, 'close', self.os_close), (os, 'fdopen', self.open), (os, 'link', self.link),
                             (os, 'chmod', lambda *a, **k: None), (os, 'sync', self.sync)):
            h.stub(obj, name, f)

    def step(self, what, handle=None):
        if self.dead:
            raise PowerCut()
        i = self.n
        self.n += 1
        self.ops.append(what)
        if self.kind != 'none' and not self.hit and self.at == i:
            self.hit = True
            if what in ('write', 'flush') and handle is not None and self.kind == 'error':
                handle.data.chunks.append(TORN)      # an unknown part got through
                handle.data.synced = False
            if self.kind == 'error':
                raise OSError(28, 'No space left on device')
            self.dead = True
            raise PowerCut()

    def open(self, path, mode='r', *a, **k):
        if isinstance(path, int):
            f = self.fds[path]
            g = Handle(self, f.path, f.data, mode)
            return g
        path = str(path)
        if 'r' in mode and '+' not in mode:
            if path not in self.files:
                raise FileNotFoundError(2, 'No such file', path)
            return Handle(self, path, self.files[path], mode)
        self.step('open')
        if 'x' in mode and path in self.files:
            raise FileExistsError(17, 'File exists', path)
        if 'w' in mode or path not in self.files:
            if 'r' in mode and path not in self.files:
                raise FileNotFoundError(2, 'No such file', path)
            old = self.files.get(path)
            if old is not None:
                old.chunks, old.synced = [], False     # truncated in place
            else:
                self.files[path] = Data([], False)
        return Handle(self, path, self.files[path], mode)

    def os_open(self, path, flags, *a, **k):
        if flags & os.O_DIRECTORY or not flags & (os.O_WRONLY | os.O_RDWR):
            return Handle(self, str(path), self.files.get(str(path), Data()), 'r').fd
        mode = 'x' if flags & os.O_EXCL else 'w' if flags & os.O_TRUNC else 'a'
        return self.open(path, mode + 'b').fd

    def os_write(self, fd, data):
        f = self.fds[fd]
        f.write(data)
        f.flush()
        return len(data)

    def os_close(self, fd):
        self.fds[fd].close()

    def fsync(self, f):
        f = f if isinstance(f, Handle) else self.fds[f]
        self.step('fsync')
        f.data.synced = True

    def sync(self):
        self.step('fsync')
        for d in self.files.values():
            d.synced = True

    def rename(self, a, b, **k):
        a, b = str(a), str(b)
        self.step('rename')
        if a not in self.files:
            raise FileNotFoundError(2, 'No such file', a)
        self.files[b] = self.files.pop(a)

    def link(self, a, b, **k):
        a, b = str(a), str(b)
        self.step('link')
        if b in self.files:
            raise FileExistsError(17, 'File exists', b)
        self.files[b] = self.files[a]

    def remove(self, a, **k):
        self.step('remove')
        if str(a) not in self.files:
            raise FileNotFoundError(2, 'No such file', a)
        del self.files[str(a)]

    def exists(self, a):
        return str(a) in self.files

    def reboot(self):
        """the machine comes back: unsynced data may be lost"""
        h = self.h
        if self.dead:
            for p, d in sorted(self.files.items()):
                if not d.synced and h.choice('lost:' + p, [False, True]):
                    d.chunks = [TORN]
        for f in self.fds.values():
            f.buf, f.closed = [], True
        self.dead, self.kind = False, 'none'

    def text(self, path):
        """content, or None without the file"""
        if path not in self.files:
            return None
        c = self.files[path].chunks
        r = self.h.concat(*c) if c else ''
        return r.decode('utf-8') if isinstance(r, bytes) else r
