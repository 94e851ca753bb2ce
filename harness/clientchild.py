"""A user's program that uses dask_gateway, run as a process of its own (C25): clientchild.py JSON."""
import atexit
import gc
import json
import os
import socket
import sys
import time

CFG = json.loads(sys.argv[1])
os.environ["VERIF_REPO"] = CFG["repo"]
sys.path[0] = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from harness import repo  # noqa: E402,F401
import aiohttp  # noqa: E402
import aiohttp.connector  # noqa: E402
import aiohttp.resolver  # noqa: E402
from dask_gateway import client as cl  # noqa: E402
from dask_gateway.auth import BasicAuth  # noqa: E402

aiohttp.connector.DefaultResolver = aiohttp.resolver.ThreadedResolver      # what is used unless aiodns is installed
_init = aiohttp.TCPConnector.__init__


def _connector(self, *a, **kw):
    kw.setdefault("use_dns_cache", False)
    _init(self, *a, **kw)


aiohttp.TCPConnector.__init__ = _connector


def note(**kw):
    s = socket.create_connection(("127.0.0.1", CFG["notes"]))
    s.sendall(json.dumps(kw).encode() + b"\n")
    if not s.recv(1):
        os._exit(9)
    s.close()


class Rpc:
    def __init__(self, *a, **kw):
        pass

    async def live_comm(self):
        raise OSError("no scheduler")

    async def close_rpc(self):
        note(e="rpcclose")
        import asyncio
        await asyncio.sleep(CFG["rpcslow"])


import logging  # noqa: E402
logging.disable(logging.NOTSET)
cl.rpc = Rpc
cl.GatewaySecurity.get_connection_args = lambda self, role: {}


def kind_of(exc):
    if exc is None:
        return "ok", ""
    if isinstance(exc, KeyboardInterrupt):
        return "cancelled", ""
    if isinstance(exc, cl.GatewayClusterError):
        return "ClusterError", str(exc)
    if isinstance(exc, cl.GatewayServerError):
        return "ServerError", str(exc)
    if isinstance(exc, aiohttp.ClientResponseError):
        return "HTTP", str(exc.status)
    if isinstance(exc, (OSError, aiohttp.ClientError)):
        return "Network", ""
    if isinstance(exc, ValueError):
        return "ValueError", str(exc)
    return "other", repr(exc)


atexit.register(lambda: note(e="exit"))       # before the client's own: last in, first out
OBJ, K = {}, [0]


def new(o, own, name, x, ctx):
    kw = dict(address=CFG["base"] + "/" + o, proxy_address=CFG["proxy"], public_address=CFG["base"], auth=BasicAuth("alice", "pw"), shutdown_on_close=own)
    note(e="new", o=o, own=own, name=name, arg=json.dumps({"x": x}) if not name else "")
    note(e="start", o=o)
    exc = c = None
    try:
        c = cl.GatewayCluster.from_name(name, **kw) if name else cl.GatewayCluster(x=x, **kw)
    except BaseException as e:
        exc = e
    out, msg = kind_of(exc)
    ok = out == "ok"
    note(e="up", o=o, out=out, msg=msg, name=c.name if ok else "", sched=(c.scheduler_address or "none") if ok else "", dash=(c.dashboard_link or "none") if ok else "")
    OBJ[o] = c
    if isinstance(exc, KeyboardInterrupt) and not CFG["goon"]:
        raise exc
    exc = None


def close(o, how):
    c = OBJ.get(o)
    if c is None:
        return
    K[0] += 1
    k = K[0]
    note(e="close", k=k, o=o, shut={"with": "default", "close": "default", "del": "default", "keep": "no", "stop": "yes", "shutdown": "yes"}[how])
    exc = None
    try:
        if how == "with":
            with c:
                pass
        elif how == "del":
            c = None
            del OBJ[o]
            gc.collect()
        elif how == "close":
            c.close()
        elif how == "keep":
            c.close(shutdown=False)
        elif how == "stop":
            c.close(shutdown=True)
        else:
            c.shutdown()
    except BaseException as e:
        exc = e
    if how != "del" or exc is not None:
        out, msg = kind_of(exc)
        note(e="shut", k=k, o=o, out=out, msg=msg)
    if isinstance(exc, KeyboardInterrupt) and not CFG["goon"]:
        raise exc


def main():
    for step in CFG["steps"]:
        op = step[0]
        if op == "new":
            new(*step[1:])
        elif op == "close":
            close(*step[1:])
        elif op == "idle":
            try:
                note(e="idle" if step[1] > 1 else "pause")
                time.sleep(step[1])
            except KeyboardInterrupt:
                if not CFG["goon"]:
                    raise
        elif op == "raise":
            raise RuntimeError("a bug in the user's program")
        elif op == "exit":
            sys.exit(3)


if CFG["own"]:
    main()
else:
    # objects that only a function's frame refers to
    (lambda: main())()
