"""In-memory transports and servers on a virtual event loop; the script plays the network and the peers."""
import asyncio

from harness.vloop import VirtualLoop


class Transport(asyncio.Transport):
    """The local end of a connection; the remote end is played by the script."""

    def __init__(self, loop, server=None, extra=None, name=0):
        super().__init__(extra)
        self.loop = loop
        self.server = server
        self.name = name
        self.protocol = None
        self.closing = False
        self.lost = False
        self.peer_gone = False
        self.out = bytearray()
        self.on_write = None       # callable(bytes)
        self.on_closed = None      # callable()
        self.eof_written = False
        self.reading = True
        self.delivering = False
        self.pending = []          # what arrived while reading was paused
        self.wpaused = False

    # -- used by the code under test
    def get_protocol(self):
        return self.protocol

    def set_protocol(self, p):
        self.protocol = p

    def is_closing(self):
        return self.closing

    def close(self):
        if self.closing:
            return
        self.closing = True
        self.loop.call_soon(self._lost, None)

    def abort(self):
        self.force(None)

    def write(self, data):
        if self.closing or self.lost:
            return
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError(type(data))
        if not data:
            return
        if self.peer_gone:
            self.force(BrokenPipeError(32, "Broken pipe"))
            return
        data = bytes(data)
        self.out += data
        if self.on_write is not None:
            self.on_write(data)

    def writelines(self, lst):
        self.write(b"".join(lst))

    def write_eof(self):
        self.eof_written = True

    def can_write_eof(self):
        return True

    def get_write_buffer_size(self):
        return 0

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def get_write_buffer_limits(self):
        return 0, 65536

    def is_reading(self):
        return self.reading and not self.closing

    def pause_reading(self):
        self.reading = False

    def resume_reading(self):
        if self.closing or self.reading:
            return
        self.reading = True
        self.loop.call_soon(self._deliver)

    def _deliver(self):
        while self.pending and self.reading and not self.lost:
            f, a = self.pending.pop(0)
            self.delivering = True
            f(*a)
            self.delivering = False

    # -- used by the script
    def force(self, exc):
        if self.lost:
            return
        if not self.closing:
            self.closing = True
            self.loop.call_soon(self._lost, exc)

    def _lost(self, exc):
        if self.lost:
            return
        self.lost = True
        try:
            self.protocol.connection_lost(exc)
        finally:
            if self.server is not None:
                self.server._detach(self)
            if self.on_closed is not None:
                self.on_closed()

    def feed(self, data):
        if self.closing or self.lost or not data:
            return
        if not self.reading or (self.pending and not self.delivering):
            self.pending.append((self.feed, (data,)))
            return
        self.protocol.data_received(data)

    def feed_eof(self):
        if self.closing or self.lost:
            return
        if not self.reading or (self.pending and not self.delivering):
            self.pending.append((self.feed_eof, ()))
            return
        if not self.protocol.eof_received():
            self.close()

    def pause_writing(self):
        if not self.wpaused and not self.lost:
            self.wpaused = True
            self.protocol.pause_writing()

    def resume_writing(self):
        if self.wpaused and not self.lost:
            self.wpaused = False
            self.protocol.resume_writing()


class Server(asyncio.AbstractServer):
    def __init__(self, loop, factory, sock):
        self.loop = loop
        self.factory = factory
        self.socks = [sock] if sock is not None else []
        self.conns = set()
        self.closed = False
        self.waiters = []
        self.on_close = None

    @property
    def sockets(self):
        return tuple(self.socks)

    def get_loop(self):
        return self.loop

    def is_serving(self):
        return not self.closed

    async def start_serving(self):
        pass

    async def serve_forever(self):
        await self.loop.create_future()

    def close(self):
        if self.closed:
            return
        self.closed = True
        for s in self.socks:
            s.close()
        self.socks = []
        if self.on_close is not None:
            self.on_close()
        self._wake()

    def _wake(self):
        if self.closed and not self.conns:
            w, self.waiters = self.waiters, []
            for f in w:
                if not f.done():
                    f.set_result(None)

    async def wait_closed(self):
        if self.closed and not self.conns:
            return
        f = self.loop.create_future()
        self.waiters.append(f)
        await f

    def _detach(self, t):
        self.conns.discard(t)
        self._wake()

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.close()
        await self.wait_closed()

    def connect(self, _delay=0, **extra):
        """A client connects; the protocol hears of it some iterations of the loop later."""
        if self.closed:
            return None
        p = self.factory()
        t = Transport(self.loop, self, extra)
        t.protocol = p
        self.conns.add(t)
        t.reading = False

        def made(n):
            if n:
                self.loop.call_soon(made, n - 1)
                return
            p.connection_made(t)
            t.reading = True
            t._deliver()
        made(_delay)
        return t


class Datagram(asyncio.DatagramTransport):
    def __init__(self, loop, sock=None):
        super().__init__({"socket": sock})
        self.loop = loop
        self.sock = sock
        self.protocol = None
        self.closing = False
        self.lost = False
        self.on_send = None

    def sendto(self, data, addr=None):
        if not data or self.closing:
            return
        if self.on_send is not None:
            self.on_send(bytes(data), addr)

    def is_closing(self):
        return self.closing

    def close(self):
        if self.closing:
            return
        self.closing = True
        self.loop.call_soon(self._lost)

    abort = close

    def _lost(self):
        if not self.lost:
            self.lost = True
            self.protocol.connection_lost(None)
            if self.sock is not None:
                self.sock.close()

    def feed(self, data, addr):
        if not self.closing:
            self.protocol.datagram_received(data, addr)


class NetLoop(VirtualLoop):
    """Servers and connections are kept in lists for the script."""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.servers = []
        self.datagrams = []
        self.on_connect = None      # async callable(factory, address) -> Transport

    async def create_server(self, factory, host=None, port=None, *, sock=None, **kw):
        s = Server(self, factory, sock)
        s.kw = dict(kw, host=host, port=port)
        self.servers.append(s)
        return s

    async def create_unix_server(self, factory, path=None, *, sock=None, **kw):
        return await self.create_server(factory, sock=sock, **kw)

    async def create_datagram_endpoint(self, factory, local_addr=None, remote_addr=None, *, sock=None, **kw):
        t = Datagram(self, sock)
        t.protocol = factory()
        t.protocol.connection_made(t)
        self.datagrams.append(t)
        return t, t.protocol

    async def create_connection(self, factory, host=None, port=None, *, sock=None, **kw):
        t = await self.on_connect((host, port), kw)
        p = t.protocol = factory()
        p.connection_made(t)
        return t, p

    async def create_unix_connection(self, factory, path=None, *, sock=None, **kw):
        return await self.create_connection(factory, path, None, **kw)
