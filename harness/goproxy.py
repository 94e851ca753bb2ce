"""Building and driving the Go proxy: scratch builds, a fake gateway API, echo backends."""
import asyncio
import json
import os
import re
import shutil
import socket
import struct
import subprocess
import sys
import tempfile
from urllib.parse import unquote

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "dask-gateway-server/dask-gateway-proxy")
TOKEN = "feedface" * 8


class BuildError(Exception):
    pass


class Build:
    """A scratch build of the proxy and of the router driver, from /repo's working tree."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="dgproxy-")
        mod = os.path.join(self.dir, "src")
        shutil.copytree(SRC, mod)
        os.makedirs(os.path.join(mod, "cmd", "verifdriver"))
        shutil.copy(os.path.join(ROOT, "harness", "go", "driver.go"), os.path.join(mod, "cmd", "verifdriver", "main.go"))
        cache = os.path.join(self.dir, "cache")
        if os.path.isdir("/opt/vp/cache/go-build"):
            shutil.copytree("/opt/vp/cache/go-build", cache)
        env = dict(os.environ, HOME=self.dir, GOCACHE=cache, GOPROXY="off", GOTOOLCHAIN="local",
                   GOFLAGS="-mod=readonly", CGO_ENABLED="0", GOPATH=os.path.join(self.dir, "gopath"))
        env["PATH"] = "/usr/local/bin:/usr/local/go/bin:" + env.get("PATH", "/usr/bin:/bin")
        self.proxy = os.path.join(self.dir, "proxy")
        self.driver = os.path.join(self.dir, "driver")
        for out, pkg in ((self.proxy, "./cmd/dask-gateway-proxy"), (self.driver, "./cmd/verifdriver")):
            p = subprocess.run(["go", "build", "-o", out, pkg], cwd=mod, env=env, capture_output=True, text=True)
            if p.returncode:
                raise BuildError(p.stdout + p.stderr)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def drive(self, histories):
        """Answers of the router package to lists of operations."""
        data = "".join(json.dumps(h) + "\n" for h in histories)
        p = subprocess.run([self.driver], input=data, capture_output=True, text=True, timeout=600)
        if p.returncode:
            raise BuildError("driver failed: " + p.stderr[-2000:])
        return [json.loads(x) for x in p.stdout.splitlines()]


def tokens(path):
    return [x for x in re.split(r"(/|%2[Ff])", path) if x]


def raw_tokens(path):
    """Of a raw path: escaped slashes stay tokens of their own, other escapes are decoded."""
    res = []
    for x in tokens(path):
        x = "%2F" if x.lower() == "%2f" else unquote(x)
        if res and x not in ("/", "%2F") and res[-1] not in ("/", "%2F"):
            res[-1] += x
        else:
            res.append(x)
    return res


_used = set()


def free_port():
    while True:
        with socket.socket() as s:
            s.bind(("127.0.0.1", 0))
            port = s.getsockname()[1]
        if port not in _used:
            _used.add(port)
            return port


# -- HTTP, by hand -------------------------------------------------------------

async def read_message(reader, nobody=False):
    """(first line, headers, body) of a request or response."""
    head = await reader.readuntil(b"\r\n\r\n")
    lines = head.decode("latin1").split("\r\n")
    headers = {}
    for x in lines[1:]:
        if ":" in x:
            k, v = x.split(":", 1)
            headers[k.strip().lower()] = v.strip()
    if nobody:
        body = b""
    elif headers.get("transfer-encoding", "").lower() == "chunked":
        body = b""
        while True:
            n = int((await reader.readline()).strip(), 16)
            body += await reader.readexactly(n)
            await reader.readline()
            if n == 0:
                break
    elif "content-length" in headers:
        body = await reader.readexactly(int(headers["content-length"]))
    elif lines[0].startswith("HTTP/") and headers.get("connection") == "close":
        body = await reader.read()
    else:
        body = b""
    return lines[0], headers, body


async def request(port, path, method="GET", headers=None, body=b"", timeout=20, host="127.0.0.1"):
    reader, writer = await asyncio.open_connection(host, port)
    try:
        h = {"Host": "proxy.example", "Connection": "close"}
        if body:
            h["Content-Length"] = str(len(body))
        h.update(headers or {})
        writer.write(("%s %s HTTP/1.1\r\n" % (method, path) +
                      "".join("%s: %s\r\n" % kv for kv in h.items()) + "\r\n").encode("latin1") + body)
        line, hs, data = await asyncio.wait_for(read_message(reader, method == "HEAD"), timeout)
        return int(line.split()[1]), hs, data
    finally:
        writer.close()


async def websocket(port, path, chunks):
    """An upgraded connection: (status, what the backend saw, whether the bytes came back right)."""
    reader, writer = await asyncio.open_connection("127.0.0.1", port)
    try:
        writer.write(("GET %s HTTP/1.1\r\nHost: proxy.example\r\nConnection: Upgrade\r\nUpgrade: websocket\r\n\r\n"
                      % path).encode("latin1"))
        head = await asyncio.wait_for(reader.readuntil(b"\r\n\r\n"), 20)
        st = int(head.split()[1])
        if st != 101:
            return st, None, True
        saw = json.loads(await asyncio.wait_for(reader.readline(), 20))
        ok = True
        for c in chunks:
            writer.write(c)
            ok = ok and await asyncio.wait_for(reader.readexactly(len(c)), 20) == c[::-1]
        return st, saw, ok
    except (asyncio.IncompleteReadError, asyncio.TimeoutError):
        return 0, None, False
    finally:
        writer.close()


class Echo:
    """HTTP backend that answers with what it received."""

    def __init__(self, label):
        self.label = label

    async def start(self):
        self.server = await asyncio.start_server(self.serve, "127.0.0.1", 0, limit=2 ** 22)
        self.port = self.server.sockets[0].getsockname()[1]
        return self

    async def serve(self, reader, writer):
        try:
            while True:
                line, headers, body = await read_message(reader)
                method, target, _ = line.split(" ", 2)
                if headers.get("upgrade") == "websocket":
                    writer.write(b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n\r\n")
                    path, _, query = target.partition("?")
                    writer.write(json.dumps({"label": self.label, "path": path, "query": query}).encode() + b"\n")
                    while True:
                        data = await reader.read(65536)
                        if not data:
                            break
                        writer.write(data[::-1])
                    break
                path, _, query = target.partition("?")
                status = int(headers.get("x-want-status", "200"))
                out = json.dumps({"label": self.label, "method": method, "path": path, "query": query,
                                  "headers": headers, "body": body.decode("latin1")}).encode()
                if status == 204:
                    writer.write(b"HTTP/1.1 204 No Content\r\nX-Echo: " + out.replace(b"\n", b"") + b"\r\n\r\n")
                else:
                    writer.write(b"HTTP/1.1 %d X\r\nX-Label: %s\r\nContent-Length: %d\r\n\r\n" %
                                 (status, self.label.encode(), len(out)) + (b"" if method == "HEAD" else out))
                await writer.drain()
                if headers.get("connection") == "close":
                    break
        except (asyncio.IncompleteReadError, ConnectionError, ValueError):
            pass
        finally:
            writer.close()

    def close(self):
        self.server.close()


class Api:
    """The gateway's side of the routes API: a faithful route log with faults injected.

    ``faults`` is consulted on each request: a list of fault names, consumed one at a time.
    """

    def __init__(self, keep=100):
        self.keep = keep
        self.faults = {"list": [], "watch": []}
        self.requests = []
        self.server = None
        self.port = None
        self.reset(1000)
        self.streams = []
        self.bad_token = 0
        self.conns = set()

    def reset(self, base):
        """As after a restart of the gateway: nothing is known."""
        self.routes = {}
        self.events = []
        self.offset = base
        self.next_id = base + 1

    async def start(self):
        self.server = await asyncio.start_server(self.serve, "127.0.0.1", self.port or 0, limit=2 ** 22)
        self.port = self.server.sockets[0].getsockname()[1]
        return self

    async def stop(self):
        """The gateway is down: the port refuses connections, streams break."""
        self.server.close()
        for s in list(self.conns):
            s.transport.abort()
        self.streams = []
        self.server = None

    def url(self):
        return "http://127.0.0.1:%d/api/v1/routes" % self.port

    def _event(self, typ, route):
        e = {"id": self.next_id, "type": typ, "route": route}
        self.next_id += 1
        if len(self.events) >= self.keep:
            n = max(1, self.keep // 2)
            self.events = self.events[n:]
            self.offset += n
        self.events.append(e)
        return e

    def put(self, kind, name, target):
        r = {"kind": kind, ("sni" if kind == "SNI" else "path"): name, "target": target}
        self.routes[(kind, name)] = r
        return self._event("PUT", r)

    def delete(self, kind, name):
        if self.routes.pop((kind, name), None) is None:
            return None
        return self._event("DELETE", {"kind": kind, ("sni" if kind == "SNI" else "path"): name})

    def send(self, events, pieces=1, lines=None):
        """Stream events to the connected proxies: in ``lines`` batches, in ``pieces`` packets."""
        events = [e for e in events if e]
        if not events:
            return
        if lines == "each":
            data = b"".join(json.dumps({"events": [e]}).encode() + b"\n" for e in events)
        else:
            data = json.dumps({"events": events}).encode() + b"\n"
        for s in list(self.streams):
            s["queue"].put_nowait((data, pieces))

    def cut(self, how="clean"):
        for s in list(self.streams):
            s["queue"].put_nowait((None, how))

    async def serve(self, reader, writer):
        self.conns.add(writer)
        try:
            while True:
                line, headers, _ = await read_message(reader)
                if headers.get("authorization") != "token " + TOKEN:
                    self.bad_token += 1
                    writer.write(b"HTTP/1.1 401 Unauthorized\r\nContent-Length: 0\r\n\r\n")
                    continue
                target = line.split(" ")[1]
                query = dict(x.split("=", 1) for x in target.partition("?")[2].split("&") if "=" in x)
                kind = "watch" if query.get("watch") else "list"
                fault = self.faults[kind].pop(0) if self.faults[kind] else None
                self.requests.append((kind, query.get("last_id"), fault))
                if not await self.answer(kind, query, fault, writer):
                    break
        except (asyncio.IncompleteReadError, ConnectionError):
            pass
        finally:
            self.conns.discard(writer)
            writer.close()

    async def answer(self, kind, query, fault, writer):
        def plain(status, body=b"", close=False):
            writer.write(b"HTTP/1.1 %d X\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n" %
                         (status, len(body)) + body)

        if fault in ("500", "503", "404", "401", "400", "422", "410"):
            plain(int(fault), b'{"error": "x"}')
            return True
        if fault == "reset":
            writer.transport.abort()
            return False
        if fault == "close":
            return False
        if kind == "list":
            body = json.dumps({"routes": list(self.routes.values()), "id": self.next_id - 1}).encode()
            if fault == "truncated":
                writer.write(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(body) + body[:len(body) // 2])
                await writer.drain()
                return False
            if fault == "garbage":
                plain(200, b"<html>busy</html>")
                return True
            if fault == "short":          # complete HTTP, incomplete JSON
                plain(200, body[:-3])
                return True
            plain(200, body)
            return True
        # watch
        try:
            index = int(query.get("last_id", "0")) - self.offset
        except ValueError:
            plain(422)
            return True
        if not 0 <= index <= len(self.events):
            plain(410)
            return True
        writer.write(b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\n\r\n")

        def chunk(data):
            writer.write(b"%x\r\n" % len(data) + data + b"\r\n")

        q = asyncio.Queue()
        if index < len(self.events):
            q.put_nowait((json.dumps({"events": self.events[index:]}).encode() + b"\n", 1))
        if fault == "empty":
            q.put_nowait((None, "clean"))
        elif fault == "badline":
            q.put_nowait((b'{"events": [{"id": 1, "type": "PUT", "rou\n', 1))
            q.put_nowait((None, "clean"))
        elif fault == "html":
            q.put_nowait((b"<html>gateway timeout</html>\n", 1))
        elif fault == "halfline":
            q.put_nowait((b'{"events": [{"id":', 1))
            q.put_nowait((None, "reset"))
        stream = {"queue": q}
        self.streams.append(stream)
        try:
            while True:
                data, how = await q.get()
                if data is None:
                    if how == "clean":
                        writer.write(b"0\r\n\r\n")
                        await writer.drain()
                        return True
                    if how == "reset":
                        await writer.drain()
                        writer.transport.abort()
                    return False
                step = max(1, -(-len(data) // how))
                for i in range(0, len(data), step):
                    chunk(data[i:i + step])
                    await writer.drain()
                    if how > 1:
                        await asyncio.sleep(0.01)
        finally:
            if stream in self.streams:
                self.streams.remove(stream)


class ProxyProc:
    def __init__(self, binary, api_url, shared=False, child=False, tls=None, nofile=None):
        self.binary, self.api_url, self.shared, self.child, self.tls, self.nofile = \
            binary, api_url, shared, child, tls, nofile
        self.proc = None

    async def start(self):
        for _ in range(5):
            self.http = free_port()
            self.tcp = self.http if self.shared else free_port()
            args = [self.binary, "-address", "127.0.0.1:%d" % self.http, "-tcp-address", "127.0.0.1:%d" % self.tcp,
                    "-api-url", self.api_url, "-log-level", "warn"]
            if self.child:
                args.append("-is-child-process")
            if self.tls:
                args += ["-tls-cert", self.tls[0], "-tls-key", self.tls[1]]
            pre = None
            if self.nofile:
                import resource
                n = self.nofile

                def pre():
                    resource.setrlimit(resource.RLIMIT_NOFILE, (n, n))
            self.log = tempfile.TemporaryFile()
            self.proc = subprocess.Popen(args, env={"DASK_GATEWAY_PROXY_TOKEN": TOKEN, "PATH": "/usr/bin:/bin"},
                                         stdin=subprocess.PIPE, stdout=self.log, stderr=self.log, preexec_fn=pre)
            for _ in range(400):
                if self.proc.poll() is not None:
                    break
                try:
                    for p in {self.http, self.tcp}:
                        _, w = await asyncio.open_connection("127.0.0.1", p)
                        w.close()
                    return self
                except OSError:
                    await asyncio.sleep(0.025)
            out = self.output()
            if self.proc.poll() is None or b"address already in use" not in out:
                self.stop()
                raise RuntimeError("the proxy did not start: %r" % out[-500:])
        raise RuntimeError("no free ports")

    def output(self):
        self.log.seek(0)
        return self.log.read()

    def alive(self):
        return self.proc.poll() is None

    def stop(self):
        if self.proc is not None and self.proc.poll() is None:
            self.proc.kill()
        if self.proc is not None:
            self.proc.wait()
            self.proc.stdin.close()


# -- TLS ------------------------------------------------------------------------

def client_hello(sni, size=None, record_version=0x0301, session=b"", extra=b""):
    """The bytes of a TLS ClientHello record; ``size`` pads it to about that many bytes."""
    def vec(data, n):
        return len(data).to_bytes(n, "big") + data

    def ext(typ, data):
        return struct.pack(">H", typ) + vec(data, 2)

    exts = b""
    if sni is not None:
        exts += ext(0, vec(b"\x00" + vec(sni, 2), 2))
    exts += ext(10, vec(b"\x00\x1d\x00\x17", 2))
    exts += ext(11, vec(b"\x00", 1))
    exts += ext(13, vec(b"\x04\x03\x08\x04\x04\x01", 2))
    exts += ext(43, vec(b"\x03\x04\x03\x03", 1))
    exts += ext(51, vec(b"\x00\x1d" + vec(bytes(range(32)), 2), 2))
    exts += extra
    body = b"\x03\x03" + bytes(range(32)) + vec(session, 1) + vec(b"\x13\x01\x13\x02\xc0\x2f", 2) + vec(b"\x00", 1)
    if size:
        pad = size - len(body) - len(exts) - 9 - 4 - 2
        if pad > 0:
            exts += ext(21, b"\x00" * pad)
    hs = body + vec(exts, 2)
    hs = b"\x01" + len(hs).to_bytes(3, "big") + hs
    return b"\x16" + struct.pack(">H", record_version) + vec(hs, 2)
