"""Requests straight into an aiohttp application, without sockets."""
import asyncio
import json

from aiohttp import streams, web
from aiohttp.http import HttpVersion11, RawRequestMessage
from aiohttp.web_request import Request
from multidict import CIMultiDict, CIMultiDictProxy
from yarl import URL


class _Transport:
    def get_extra_info(self, name, default=None):
        return default

    def is_closing(self):
        return False


class _Proto:
    _reading_paused = False
    max_field_size = max_line_length = 8190
    max_headers = 128
    ssl_context = None
    peername = ("127.0.0.1", 1)
    sockname = ("127.0.0.1", 2)

    def __init__(self):
        self.transport = _Transport()
        self.writer = None

    def resume_reading(self, *a, **k):
        pass

    def pause_reading(self, *a, **k):
        pass


class Writer:
    """Collects what a (streamed) response writes."""

    def __init__(self, on_data=None):
        self.transport = _Transport()
        self.data = b""
        self.eof = False
        self.status = None
        self.headers = None
        self.on_data = on_data
        self.buffer_size = self.output_size = 0
        self.length = None

    async def write_headers(self, status_line, headers):
        self.status, self.headers = status_line, headers

    def send_headers(self):
        pass

    def enable_chunking(self):
        pass

    def enable_compression(self, *a, **k):
        pass

    async def write(self, chunk):
        self.data += bytes(chunk)
        if self.on_data:
            self.on_data(bytes(chunk))

    async def write_eof(self, chunk=b""):
        self.data += bytes(chunk)
        self.eof = True

    async def drain(self):
        pass


def make_request(app, method, path, headers=None, body=None, writer=None):
    loop = asyncio.get_running_loop()
    hdrs = CIMultiDictProxy(CIMultiDict(headers or {}))
    raw = tuple((k.encode(), v.encode()) for k, v in hdrs.items())
    msg = RawRequestMessage(method, path, HttpVersion11, hdrs, raw, False, None, False, False, URL(path, encoded=True))
    proto = _Proto()
    if body is None:
        payload = streams.EMPTY_PAYLOAD
    else:
        payload = streams.StreamReader(proto, limit=2 ** 20, loop=loop)
        payload.feed_data(body)
        payload.feed_eof()
    w = writer or Writer()
    proto.writer = w
    return Request(msg, payload, proto, w, asyncio.current_task(), loop, client_max_size=1024 ** 2)


class Answer:
    def __init__(self, status, json=None, headers=None, reason=None, exc=None, cookies=None,
                 text=""):
        self.status, self.json, self.headers, self.reason, self.exc = status, json, headers or {}, reason, exc
        self.cookies, self.text = cookies, text


async def call(app, method, path, headers=None, body=None):
    """The response of ``app``; exceptions become 500, as in aiohttp's server."""
    h = dict(headers or {})
    if body is not None and not isinstance(body, bytes):
        body = json.dumps(body).encode()
        h.setdefault("Content-Type", "application/json")
    req = make_request(app, method, path, h, body)
    try:
        resp = await app._handle(req)
        # signal handlers run when a response is prepared
        await app.on_response_prepare.send(req, resp)
    except web.HTTPException as exc:
        return Answer(exc.status, None, exc.headers, exc.reason)
    except asyncio.CancelledError:
        raise
    except Exception as exc:
        return Answer(500, None, exc=exc)
    try:
        data = json.loads(resp.text) if resp.text else None
    except Exception:
        data = None
    return Answer(resp.status, data, resp.headers, resp.reason, cookies=resp.cookies, text=resp.text or "")
