"""Real servers on the loopback network: the applications under test behind hypercorn, uvicorn, werkzeug and wsgiref, and a
gRPC server and client of another implementation (grpcio).  Everything here runs in real time; limits are generous because
only a wrong answer, never a slow one, is a violation."""
from __future__ import annotations

from . import vtime  # noqa: F401  isort: skip

import asyncio
import contextlib
import logging
import socket
import threading
import time

PATIENCE = 90.0
logging.getLogger("asyncio").setLevel(logging.CRITICAL)  # complains about connections that are lost


def listener() -> socket.socket:
    s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
    s.bind(("127.0.0.1", 0))
    s.listen(128)
    return s


class Server:
    port = 0

    def stop(self) -> None:
        raise NotImplementedError

    def __enter__(self):
        return self

    def __exit__(self, *a) -> None:
        self.stop()

    @property
    def base(self) -> str:
        return f"http://127.0.0.1:{self.port}"


class _Loop(Server):
    """A server that is a coroutine, in a thread with an event loop of its own."""

    def __init__(self, app) -> None:
        self.app = app
        self.sock = listener()
        self.port = self.sock.getsockname()[1]
        self.ready = threading.Event()
        self.failed: BaseException | None = None
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.thread.start()
        if not self.ready.wait(PATIENCE):
            raise RuntimeError("server does not start")

    def _main(self) -> None:
        async def main():
            self.loop = asyncio.get_running_loop()
            self.loop.set_exception_handler(lambda loop, ctx: None)
            self.end = asyncio.Event()
            await self.run()

        try:
            asyncio.run(main())
        except BaseException as e:  # noqa: BLE001
            self.failed = e
        finally:
            self.ready.set()

    def stop(self) -> None:
        """Asks the server to stop and, as some wait for ever for connections that were lost, makes it."""
        with contextlib.suppress(RuntimeError):
            self.loop.call_soon_threadsafe(self.end.set)
        self.thread.join(2)
        for _ in range(20):
            if not self.thread.is_alive():
                break
            with contextlib.suppress(RuntimeError):
                self.loop.call_soon_threadsafe(lambda: [t.cancel() for t in asyncio.all_tasks(self.loop)])
            self.thread.join(1)
        self.sock.close()


class Hypercorn(_Loop):
    """HTTP/1.1 and HTTP/2 over cleartext, with trailers in the latter."""

    mode = "asgi"

    async def run(self) -> None:
        import hypercorn.asyncio
        import hypercorn.config
        cfg = hypercorn.config.Config()
        cfg.bind = [f"fd://{self.sock.detach()}"]
        cfg.errorlog = cfg.accesslog = None
        cfg.graceful_timeout = 20.0
        cfg.wsgi_max_body_size = 1 << 26
        self.ready.set()
        await hypercorn.asyncio.serve(self.app, cfg, shutdown_trigger=self.end.wait, mode=self.mode)


class HypercornWsgi(Hypercorn):
    mode = "wsgi"


class Uvicorn(_Loop):
    async def run(self) -> None:
        import uvicorn
        cfg = uvicorn.Config(self.app, log_config=None, log_level="critical", lifespan="on", loop="asyncio", http="h11", ws="none",
                             access_log=False, timeout_graceful_shutdown=20)
        srv = uvicorn.Server(cfg)

        async def watch():
            await self.end.wait()
            srv.should_exit = True

        t = asyncio.ensure_future(watch())
        self.ready.set()
        await srv.serve(sockets=[self.sock])
        t.cancel()


class _Wsgi(Server):
    def __init__(self, app) -> None:
        self.srv = self.make(app)
        # connections inherit it: the client notices that nobody reads
        self.srv.socket.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 16384)
        self.port = self.srv.server_address[1]
        self.thread = threading.Thread(target=self.srv.serve_forever, kwargs={"poll_interval": 0.02}, daemon=True)
        self.thread.start()

    def stop(self) -> None:
        self.srv.shutdown()
        self.thread.join(PATIENCE)
        self.srv.server_close()


class Werkzeug(_Wsgi):
    """Understands chunked requests; answers with HTTP/1.1."""

    def make(self, app):
        from werkzeug.serving import WSGIRequestHandler, make_server

        class Quiet(WSGIRequestHandler):
            protocol_version = "HTTP/1.1"

            def log(self, *a) -> None:
                pass

        logging.getLogger("werkzeug").setLevel(logging.CRITICAL)
        srv = make_server("127.0.0.1", 0, app, threaded=True, request_handler=Quiet)
        srv.daemon_threads = True
        srv.block_on_close = False
        return srv


class Wsgiref(_Wsgi):
    """The reference implementation: HTTP/1.0 answers, the bare socket as body, so that only requests with a length end."""

    def make(self, app):
        import socketserver
        from wsgiref.simple_server import ServerHandler, WSGIRequestHandler, WSGIServer

        class Threaded(socketserver.ThreadingMixIn, WSGIServer):
            daemon_threads = True
            block_on_close = False
            request_queue_size = 128

        class H(ServerHandler):
            def log_exception(self, exc_info) -> None:
                pass

        class Quiet(WSGIRequestHandler):
            def log_message(self, *a) -> None:
                pass

            def handle(self):
                # as the original, with our handler
                self.raw_requestline = self.rfile.readline(65537)
                if not self.parse_request():
                    return
                h = H(self.rfile, self.wfile, self.get_stderr(), self.get_environ(), multithread=True)
                h.request_handler = self
                h.run(self.server.get_app())

        srv = Threaded(("127.0.0.1", 0), Quiet)
        srv.set_app(app)
        return srv


SERVERS = {"hypercorn": Hypercorn, "uvicorn": Uvicorn, "hypercorn-wsgi": HypercornWsgi, "werkzeug": Werkzeug, "wsgiref": Wsgiref}
WSGI = {"hypercorn-wsgi", "werkzeug", "wsgiref"}


class Proxy(Server):
    """Forwards TCP connections in pieces of its own; cuts every connection after so many bytes in one direction."""

    def __init__(self, port: int, rng, *, cut: tuple | None = None, rst: bool = False, piece: int = 0, pause: float = 0.0) -> None:
        self.target, self.cut, self.rst, self.piece, self.pause = port, cut, rst, piece, pause
        self.rng = rng
        self.count = {"up": 0, "down": 0}
        self.up = bytearray()  # what was forwarded to the server
        self.was_cut = False
        self.sock = listener()
        self.port = self.sock.getsockname()[1]
        self.lock = threading.Lock()
        self.open: set = set()
        self.stopped = False
        self.thread = threading.Thread(target=self._accept, daemon=True)
        self.thread.start()

    def _accept(self) -> None:
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            if self.stopped:
                c.close()
                return
            with self.lock:
                if self.was_cut:  # the other end is gone for good
                    c.close()
                    continue
            try:
                u = socket.create_connection(("127.0.0.1", self.target))
            except OSError:
                c.close()
                continue
            for s in (c, u):
                s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                self.open.add(s)
            for a, b, way in ((c, u, "up"), (u, c, "down")):
                threading.Thread(target=self._pump, args=(a, b, way), daemon=True).start()

    def _kill(self, *socks) -> None:
        for s in socks:
            with contextlib.suppress(OSError):
                if self.rst:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
                # wakes the thread that reads, or close() would not close
                s.shutdown(socket.SHUT_RD if self.rst else socket.SHUT_RDWR)
                s.close()

    def _pump(self, a, b, way: str) -> None:
        try:
            while data := a.recv(65536):
                while data:
                    n = min(len(data), self.piece) if self.piece else len(data)
                    if self.cut and self.cut[0] == way:
                        with self.lock:
                            left = self.cut[1] - self.count[way]
                            if left <= 0:
                                self.was_cut = True
                        if left <= 0:
                            self._kill(*self.open)
                            return
                        n = min(n, left)
                    b.sendall(data[:n])
                    with self.lock:
                        self.count[way] += n
                        if way == "up":
                            self.up += data[:n]
                    data = data[n:]
                    if self.pause:
                        time.sleep(self.pause)
        except OSError:
            pass
        finally:
            with contextlib.suppress(OSError):
                b.shutdown(socket.SHUT_WR)

    def stop(self) -> None:
        self.stopped = True
        with contextlib.suppress(OSError):
            self.sock.shutdown(socket.SHUT_RDWR)
        self.sock.close()
        self.thread.join(PATIENCE)
        self._kill(*self.open)


# --------------------------------------------------------------------------- running with a limit
class Stuck(Exception):
    pass


def in_thread(fn, limit: float = PATIENCE):
    """Runs fn in a thread; Stuck if it does not return."""
    box: list = []

    def main():
        try:
            box.append((True, fn()))
        except BaseException as e:  # noqa: BLE001
            box.append((False, e))

    t = threading.Thread(target=main, daemon=True)
    t.start()
    t.join(limit)
    if not box:
        raise Stuck
    ok, v = box[0]
    if not ok:
        raise v
    return v


def run_async(coro_fn, limit: float = PATIENCE):
    """Runs a coroutine in a loop of its own; Stuck if it does not end."""
    async def main():
        try:
            return await asyncio.wait_for(coro_fn(), limit)
        except asyncio.TimeoutError:
            raise Stuck from None

    return in_thread(lambda: asyncio.run(main()), limit + 30)
