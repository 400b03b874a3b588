"""What the real workers of worker pools run. Imported by them: keep it small."""
import os
import socket

READY = None


def initializer(x, *, fail=False):
    global READY
    if fail:
        raise BadInit(x)
    READY = x


class BadInit(Exception):
    pass


class Boom(Exception):
    pass


class Unsendable:
    def __reduce__(self):
        raise TypeError("can not be sent")


def job(c, kind, where, init, size, *, kw):
    with socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM) as s:
        s.connect(os.path.join(where, "sock"))
        s.send(b"%d %d" % (c, os.getpid()))
    with open(os.path.join(where, "gate%d" % c), "rb", buffering=0) as f:
        how = f.read(1)
    if kw != c or READY != init:
        raise ValueError("wrong arguments")
    if kind == "exc":
        raise [Boom, ConnectionResetError, StopIteration, LookupError][size % 4](c, "args")
    if kind == "err":
        return Unsendable()
    if kind == "die":
        how = how.decode()
        if how == "0":
            raise SystemExit(0)
        if how == "1":
            os._exit(0)
        if how == "2":
            raise SystemExit("bye")
        if how == "3":
            os.abort()
        if how == "4":
            raise KeyboardInterrupt
        os.kill(os.getpid(), 9)
    return "result", c, b"x" * size
