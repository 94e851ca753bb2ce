"""Stand-in for outgoing aiohttp client requests: a handler answers instead of the network."""
import asyncio
import json

import aiohttp
from yarl import URL

_handlers = {}


class Refused(aiohttp.ClientConnectionError):
    pass


class Response:
    def __init__(self, method, url, status, body, ctype="application/json"):
        self.method, self.url, self.real_url = method, URL(url), URL(url)
        self.status, self.body = status, body
        self.reason = "reason"
        self.headers = {"Content-Type": ctype}
        self.content_type = ctype
        self.closed = False

    @property
    def ok(self):
        return self.status < 400

    def raise_for_status(self):
        if self.status >= 400:
            raise aiohttp.ClientResponseError(None, (), status=self.status, message=self.reason)

    async def read(self):
        return self.body if isinstance(self.body, bytes) else json.dumps(self.body).encode()

    async def text(self, **kw):
        return (await self.read()).decode()

    async def json(self, content_type="application/json", **kw):
        if content_type and self.content_type != content_type:
            raise aiohttp.ContentTypeError(None, (), status=self.status, message="not json")
        return json.loads(await self.read())

    def release(self):
        self.closed = True

    close = release

    async def __aenter__(self):
        return self

    async def __aexit__(self, *exc):
        self.release()


async def _request(self, method, url, *, json=None, data=None, headers=None, raise_for_status=None, params=None, **kw):
    handler = _handlers.get(None)
    res = handler(method, str(url), dict(headers or {}), json if json is not None else data)
    if asyncio.iscoroutine(res):
        res = await res
    if isinstance(res, BaseException):
        raise res
    r = Response(method, str(url), *res)
    if raise_for_status or (raise_for_status is None and self._raise_for_status):
        r.raise_for_status()
    return r


def install(handler):
    """``handler(method, url, headers, body)`` -> (status, body[, content type]), an exception to raise,
    or a coroutine returning either."""
    _handlers[None] = handler
    aiohttp.ClientSession._request = _request
