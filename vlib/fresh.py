"""Fresh-process oracle: a zygote forked before any prediction answers each request in a new child."""
import os
import pickle
import struct
import sys


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<Q', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    def rd(n):
        out = b''
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                return None
            out += c
        return out
    h = rd(8)
    if h is None:
        return None
    b = rd(struct.unpack('<Q', h)[0])
    return None if b is None else pickle.loads(b)


class Zygote:
    def __init__(self, fn):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                while True:
                    req = _recv(r1)
                    if req is None:
                        os._exit(0)
                    pid = os.fork()
                    if pid == 0:
                        try:
                            try:
                                res = ('ok', fn(req))
                            except BaseException as e:
                                res = ('err', '%s: %s' % (type(e).__name__, e))
                            _send(w2, res)
                        finally:
                            os._exit(0)
                    os.waitpid(pid, 0)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def ask(self, req):
        _send(self.w, req)
        return _recv(self.r)

    def close(self):
        os.close(self.w)
        os.waitpid(self.pid, 0)
        os.close(self.r)
