"""Client objects of dask_gateway against a fake gateway, in virtual time (C25)."""
import asyncio
import collections
import contextvars
import json
import logging
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import repo, vloop  # noqa: E402,F401
import aiohttp  # noqa: E402
import dask  # noqa: E402
from dask_gateway import client as cl  # noqa: E402
from dask_gateway.auth import BasicAuth, JupyterHubAuth  # noqa: E402

logging.getLogger("distributed.client").setLevel(100)
logging.getLogger("asyncio").setLevel(100)
CUR = contextvars.ContextVar("cur", default=("", 0))     # on whose behalf a request is made
STATUSES = ["PENDING", "RUNNING", "STOPPING", "STOPPED", "FAILED"]


class Resp:
    def __init__(self, status, body, ctype="application/json", reason="because"):
        self.status, self.body, self.ctype, self.reason = status, body, ctype, reason
        self.headers, self.ok, self.content_type = {"Content-Type": ctype}, status < 400, ctype

    async def json(self, **kw):
        if self.ctype != "application/json":
            raise aiohttp.ContentTypeError(None, (), message="unexpected mimetype")
        return json.loads(self.body)

    async def text(self, **kw):
        return self.body

    async def read(self):
        return self.body.encode()

    def release(self):
        pass

    close = release

    def raise_for_status(self):
        if self.status >= 400:
            raise aiohttp.ClientResponseError(None, (), status=self.status, message=self.reason, headers=self.headers)

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        pass


class Pending:
    """As what a session's request() gives: can be awaited or entered."""

    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()

    async def __aenter__(self):
        return await self.coro

    async def __aexit__(self, *a):
        pass


class Session:
    run = None

    def __init__(self, *a, **kw):
        self.closed, self.cookie = False, False

    def request(self, method, url, **kw):
        return Pending(self.run.serve(self, method, str(url), **kw))

    def get(self, url, **kw):
        return self.request("GET", url, **kw)

    def post(self, url, **kw):
        return self.request("POST", url, **kw)

    def delete(self, url, **kw):
        return self.request("DELETE", url, **kw)

    async def close(self):
        await asyncio.sleep(0)
        self.closed = True

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        await self.close()


class Comm:
    def __init__(self, run):
        self.run = run

    async def write(self, msg):
        pass

    async def read(self):
        r = self.run
        if not hasattr(self, "first"):
            self.first = True
            return {"workers": {}}
        await asyncio.sleep(r.rng.choice([0.5, 5, 50]))
        if r.rng.random() < 0.3:
            raise OSError("gone")
        return [("add", {"workers": {"w": {"nthreads": 1, "memory_limit": 1}}})] if r.rng.random() < 0.7 else [("remove", "w")]

    async def close(self):
        pass


class Rpc:
    run = None

    def __init__(self, *a, **kw):
        pass

    async def live_comm(self):
        await self.run.pause(self.run.rng.choice([0, 0.01]))
        if self.run.rng.random() < 0.5:
            raise OSError("no scheduler")
        return Comm(self.run)

    async def close_rpc(self):
        await self.run.pause(self.run.rng.choice([0, 0, 0.1]))
        if self.run.rng.random() < self.run.cfg["rpcfail"]:
            raise ValueError("cannot close")


def kind_of(exc):
    if exc is None:
        return "ok", ""
    if isinstance(exc, asyncio.CancelledError):
        return "cancelled", ""
    if isinstance(exc, cl.GatewayClusterError):
        return "ClusterError", str(exc)
    if isinstance(exc, cl.GatewayServerError):
        return "ServerError", str(exc)
    if isinstance(exc, aiohttp.ClientResponseError):
        return "HTTP", str(exc.status)
    if isinstance(exc, (OSError, aiohttp.ClientError)):
        return "Network", ""
    if isinstance(exc, ValueError):
        return "ValueError", str(exc)
    return "other", repr(exc)


ADDRS = [  # (address given, scheme://host:port.. of requests, what the default proxy is)
    ("http://gw.example:8000", "gw.example:8000"), ("http://gw.example", "gw.example:80"), ("https://gw.example/", "gw.example:443"),
    ("http://10.0.0.1:9/prefix", "10.0.0.1:9"), ("https://gw.example:8443/a/b/", "gw.example:8443")]


class Run:
    def __init__(self, cfg):
        self.cfg, self.rng = cfg, random.Random(cfg["seed"])
        self.ev, self.clusters, self.objs, self.tasks = [], {}, {}, set()
        self.nr = self.nc = self.no = self.nk = 0
        self.calm, self.warnings = False, collections.defaultdict(list)
        addr, self.dproxy = ADDRS[cfg["addr"]]
        self.addr, self.base = addr, addr.rstrip("/")
        self.proxy_arg, self.proxy = {0: (None, self.dproxy), 1: (9999, self.dproxy.rsplit(":", 1)[0] + ":9999"), 2: ("px.example:1", "px.example:1"),
                                      3: ("tls://px.example:2", "px.example:2")}[cfg["proxy"]]
        self.public_arg, self.public = {0: (None, self.base), 1: ("https://pub.example/x/", "https://pub.example/x")}[cfg["public"]]

    def ms(self):
        return int((asyncio.get_running_loop().time() - 1000) * 1000 + 0.5)

    def log(self, e, **kw):
        self.ev.append(dict(kw, e=e, at=self.ms()))

    async def pause(self, d):
        if d <= 0:
            for _ in range(self.rng.randint(0, 4)):
                await asyncio.sleep(0)
        else:
            await asyncio.sleep(d)

    def spawn(self, coro):
        t = asyncio.ensure_future(coro)
        self.tasks.add(t)
        t.add_done_callback(self.tasks.discard)
        return t

    # ------------------------------------------------------------- the gateway
    def parse(self, method, url, body):
        """-> (verb, name, filter, n, ok)"""
        if not url.startswith(self.base + "/api/"):
            return "odd", "", [], "", False
        p, _, q = url[len(self.base) + 5:].partition("?")
        if method == "GET" and p == "version":
            return "version", "", [], "", True
        if method == "GET" and p == "v1/options":
            return "options", "", [], "", True
        if not p.startswith("v1/clusters/"):
            return "odd", "", [], "", False
        parts = p[len("v1/clusters/"):].split("/")
        if parts == [""]:
            if method == "POST":
                return "create", "", [], json.dumps((body or {}).get("cluster_options"), sort_keys=True), True
            return "list", "", sorted(q[len("status="):].split(",")) if q.startswith("status=") else [], "", method == "GET"
        name = parts[0]
        if len(parts) == 1:
            return {"GET": "get", "DELETE": "delete"}.get(method, "odd"), name, ["wait"] if q.split("=")[0] == "wait" else [], "", True
        if len(parts) == 2 and method == "POST" and parts[1] in ("scale", "adapt"):
            return parts[1], name, [], json.dumps(body, sort_keys=True), True
        return "odd", name, [], "", False

    def model(self, name):
        c = self.clusters[name]
        return {"name": name, "status": c["phase"], "dashboard_route": "/clusters/%s/status" % name if c["phase"] == "RUNNING" and c["dash"] else None,
                "start_time": 1700000000000 + c["n"], "stop_time": 1700000050000 if c["phase"] in ("STOPPED", "FAILED") else None, "options": {"n": c["n"]},
                "tls_cert": "C" if c["phase"] == "RUNNING" else None, "tls_key": "K" if c["phase"] == "RUNNING" else None}

    async def serve(self, session, method, url, json=None, headers=None, **kw):
        rng = self.rng
        self.nr += 1
        r = self.nr
        verb, name, filt, arg, ok = self.parse(method, url, json)
        auth = session.cookie or (headers or {}).get("Authorization") == self.auth
        o, k = CUR.get()
        self.log("req", r=r, o=o, k=k, verb=verb, name=name, filt=filt, arg=arg, auth=auth, fine=ok and not session.closed)
        try:
            if session.closed:
                raise aiohttp.ClientConnectionError("session is closed")
            await self.pause(rng.choice(self.cfg["latency"]))
            if self.down():
                raise rng.choice([OSError("refused"), aiohttp.ClientConnectionError("x")])
            st, body, ctype, phase, lost = await self.handle(session, verb, name, filt, auth)
            await self.pause(rng.choice(self.cfg["latency"]))
            if lost:
                raise aiohttp.ServerDisconnectedError()
        except asyncio.CancelledError:
            self.log("drop", r=r)
            raise
        except (OSError, aiohttp.ClientError):
            self.log("resp", r=r, st=0, name="", phase="", msg="", route="", got=[])
            raise
        route, got, newname, msg = "", [], "", ""
        if st < 400 and verb == "get":
            route = body["dashboard_route"] or ""
        elif st < 400 and verb == "list":
            got = [[n, c["status"], c["dashboard_route"] or ""] for n, c in sorted(body.items())]
        elif st < 400 and verb == "create":
            newname = body["name"]
        elif st < 400 and verb in ("scale", "adapt") and body and not body["ok"]:
            msg = body["msg"]
        elif st >= 400:
            msg = body["error"] if ctype == "application/json" and isinstance(body, dict) and "error" in body else self.dump(body, ctype)
        self.log("resp", r=r, st=st, name=newname or name, phase=phase, msg=msg, route=route, got=got)
        return Resp(st, self.dump(body, ctype), ctype)

    def dump(self, body, ctype):
        return json.dumps(body) if ctype == "application/json" else body

    def down(self):
        return not self.calm and self.rng.random() < self.cfg["down"]

    def trouble(self):
        rng = self.rng
        st = rng.choice([400, 403, 404, 409, 422, 500, 500, 502, 503])
        if rng.random() < 0.7:
            return st, {"error": "no: %d" % rng.randint(0, 9)}, "application/json", "", False
        if rng.random() < 0.5:
            return st, {"message": "no"}, "application/json", "", False
        return st, "<html>%d</html>" % st, "text/html", "", False

    async def handle(self, session, verb, name, filt, auth):
        rng = self.rng
        if self.cfg["auth"] and not auth:
            return 401, {"error": "unauthorized"}, "application/json", "", False
        if self.cfg["cookies"] and auth:
            session.cookie = rng.random() < 0.8
        if not self.calm and rng.random() < self.cfg["refuse"]:
            return self.trouble()
        lost = not self.calm and rng.random() < self.cfg["lose"]
        J = "application/json"
        if verb == "create":
            self.nc += 1
            n = "c%d" % self.nc
            self.clusters[n] = {"phase": "PENDING", "n": self.nc, "dash": rng.random() < 0.7}
            self.spawn(self.life(n))
            return 201, {"name": n}, J, "", lost
        if verb == "list":
            return 200, {n: self.model(n) for n in self.clusters if self.clusters[n]["phase"] in (filt or ["PENDING", "RUNNING"])}, J, "", lost
        if verb == "version":
            return 200, {"version": "1"}, J, "", lost
        if verb == "options":
            return 200, {"cluster_options": []}, J, "", lost
        if name not in self.clusters:
            return 404, {"error": "Cluster %s not found" % name}, J, "", False
        c = self.clusters[name]
        if verb == "get":
            if "wait" in filt:
                for _ in range(20):
                    if c["phase"] != "PENDING":
                        break
                    await asyncio.sleep(1)
            return 200, self.model(name), J, c["phase"], lost
        if verb == "delete":
            if c["phase"] in ("PENDING", "RUNNING"):
                c["phase"] = "STOPPING"
                self.spawn(self.end(name))
            return 204, "", "text/plain", "", lost
        if c["phase"] != "RUNNING":
            return 409, {"error": "Cluster %s is not running" % name}, J, "", False
        if rng.random() < 0.3:
            return 200, "", "text/plain", "", lost
        ok = rng.random() < 0.5
        return 200, {"ok": ok, "msg": None if ok else "only %d" % rng.randint(0, 9)}, J, "", lost

    async def life(self, n):
        rng, c = self.rng, self.clusters[n]
        await asyncio.sleep(rng.choice(self.cfg.get("life", [0, 0.5, 3, 30])))
        if c["phase"] == "PENDING":
            c["phase"] = rng.choices(["RUNNING", "FAILED", "STOPPING", "STOPPED"], [6, 1, 1, 1])[0]
            if c["phase"] == "STOPPING":
                await self.end(n)

    async def end(self, n):
        await asyncio.sleep(self.rng.choice(self.cfg.get("end", [0, 1, 25])))
        self.clusters[n]["phase"] = "STOPPED"

    # ------------------------------------------------------------- users
    def create(self):
        rng = self.rng
        self.no += 1
        o = "o%d" % self.no
        kw = dict(address=self.addr, proxy_address=self.proxy_arg, public_address=self.public_arg, auth=self.auth_obj(), asynchronous=True)
        via = None
        if rng.random() < 0.3:
            via = cl.Gateway(**kw)
        if rng.random() < 0.35:
            name = rng.choice(sorted(self.clusters) + ["nobody"] * (rng.random() < 0.2)) if self.clusters else "nobody"
            own = rng.random() < 0.3
            opts = {} if not own and rng.random() < 0.5 else {"shutdown_on_close": own}
            x = via.connect(name, **opts) if via else cl.GatewayCluster.from_name(name, **opts, **kw)
            arg = ""
        else:
            name, own = "", rng.random() < 0.75
            opts = {} if own and rng.random() < 0.5 else {"shutdown_on_close": own}
            opts["x"] = rng.randint(1, 9)
            x = via.new_cluster(**opts) if via else cl.GatewayCluster(**opts, **kw)
            arg = json.dumps({"x": opts["x"]}, sort_keys=True)
        self.objs[o] = x
        self.log("new", o=o, own=own, name=name, arg=arg)
        return o

    def auth_obj(self):
        if self.cfg["auth"] == 2:
            self.auth = "jupyterhub tok"
            return JupyterHubAuth("tok")
        self.auth = "Basic YWxpY2U6cHc="
        return BasicAuth("alice", "pw")

    async def start(self, o, ctx):
        x = self.objs[o]
        CUR.set((o, 0))
        self.log("start", o=o)
        exc = None
        try:
            if ctx:
                await x.__aenter__()
            else:
                await x
        except BaseException as e:
            exc = e
        out, msg = kind_of(exc)
        self.log("up", o=o, out=out, msg=msg, sched=(x.scheduler_address or "none") if out == "ok" else "", dash=(x.dashboard_link or "none") if out == "ok" else "",
                 name=x.name or "")
        return out

    async def close(self, o, how):
        x = self.objs[o]
        self.nk += 1
        k = self.nk
        CUR.set((o, 0))
        self.log("close", k=k, o=o, shut={"exit": "default", "close": "default", "keep": "no", "stop": "yes", "shutdown": "yes"}[how])
        exc = None
        try:
            if how == "exit":
                await x.__aexit__(None, None, None)
            elif how == "close":
                await x.close()
            elif how == "keep":
                await x.close(shutdown=False)
            elif how == "stop":
                await x.close(shutdown=True)
            else:
                await x.shutdown()
        except BaseException as e:
            exc = e
        out, msg = kind_of(exc)
        self.log("shut", k=k, o=o, out=out, msg=msg)

    async def cancelled(self, t, o, what, d):
        await self.pause(d)
        if not t.done():
            self.log("cancel", o=o, what=what)
            t.cancel()

    async def story(self, o):
        rng, cfg = self.rng, self.cfg
        await self.pause(rng.choice([0, 0, 0.5]))
        hows = ["exit", "close", "keep", "stop", "shutdown"]
        if rng.random() < 0.95:
            t = self.spawn(self.start(o, rng.random() < 0.5))
            if rng.random() < cfg["cancel"]:
                self.spawn(self.cancelled(t, o, "start", rng.choice([0, 0, 0, 0.001, 0.011, 0.1, 1, 5])))
            if rng.random() < 0.15:
                self.spawn(self.later(o, rng.choice(hows), rng.choice([0, 0, 0.01, 0.5, 3])))
            await asyncio.wait([t])
            if t.result() == "ok":
                for _ in range(rng.randint(0, 2)):
                    await self.pause(rng.choice([0, 1]))
                    await self.spawn(self.call(o))
        if rng.random() < 0.1:
            return                                      # never closed
        for i in range(rng.choice([1, 1, 2, 3])):
            t = self.spawn(self.close(o, rng.choice(hows)))
            if rng.random() < cfg["cancel"] / 2:
                self.spawn(self.cancelled(t, o, "close", rng.choice([0, 0, 0.001, 0.05, 1])))
            if rng.random() < 0.5:
                await asyncio.wait([t])
            else:
                await self.pause(rng.choice([0, 0, 0.01, 1]))

    async def later(self, o, how, d):
        await self.pause(d)
        await self.close(o, how)

    async def call(self, o=None):
        """Any other request of a client."""
        rng = self.rng
        self.nk += 1
        k = self.nk
        g = self.objs[o].gateway if o else self.gateway
        name = self.objs[o].name if o else rng.choice(sorted(self.clusters) + ["nobody"])
        op = rng.choice(["scale", "adapt"] if o else ["list", "get", "delete", "scale", "adapt", "create", "version"])
        filt, arg, n = [], "", rng.randint(0, 5)
        if op == "list":
            st = None if rng.random() < 0.4 else rng.sample(STATUSES, rng.randint(1, 3))
            filt = sorted(st or [])
            if st:
                st = rng.choice([lambda s: [x.lower() for x in s], lambda s: [cl.ClusterStatus[x] for x in s], lambda s: s])(st)
                if len(st) == 1 and rng.random() < 0.5:
                    st = st[0]
            f = lambda: g.list_clusters(status=st)  # noqa: E731
        elif op == "get":
            f = lambda: g.get_cluster(name)  # noqa: E731
        elif op == "delete":
            f = lambda: g.stop_cluster(name)  # noqa: E731
        elif op == "scale":
            arg = json.dumps({"count": n})
            f = (lambda: self.objs[o].scale(n)) if o else (lambda: g.scale_cluster(name, n))
        elif op == "adapt":
            arg = json.dumps({"active": n != 3, "maximum": n, "minimum": None}, sort_keys=True)
            f = (lambda: self.objs[o].adapt(maximum=n, active=n != 3)) if o else (lambda: g.adapt_cluster(name, None, n, n != 3))
        elif op == "create":
            arg = json.dumps({"x": n})
            f = lambda: g.submit(x=n)  # noqa: E731
        else:
            f = lambda: g.get_versions()  # noqa: E731
        CUR.set((o or "", k))
        self.log("call", k=k, o=o or "", verb=op, name=name if op not in ("list", "create", "version") else "", filt=filt, arg=arg)
        exc = res = None
        try:
            res = await f()
        except BaseException as e:
            exc = e
        out, msg = kind_of(exc)
        got = []
        if out == "ok" and op == "get":
            got = [self.shown(res)]
        elif out == "ok" and op == "list":
            got = sorted(self.shown(x) for x in res)
        if out == "ok" and op in ("scale", "adapt"):
            msg = " / ".join(self.warnings[k])
        self.log("ret", k=k, o=o or "", verb=op, out=out, msg=res if out == "ok" and op == "create" else msg, got=got)

    def shown(self, x):
        c = self.clusters.get(x.name, {"n": -1})
        ok = x.options == {"n": c["n"]} and abs(x.start_time.timestamp() * 1000 - 1700000000000 - c["n"]) < 0.5
        ok = ok and (x.stop_time is None if x.status.name not in ("STOPPED", "FAILED") else x.stop_time.timestamp() == 1700000050)
        return [x.name if ok else "?", x.status.name, x.scheduler_address or "none", x.dashboard_link or "none"]

    def warn(self, w, *a, **kw):
        """Stands in for the warnings module."""
        self.warnings[CUR.get()[1]].append(str(w)) if isinstance(w, cl.GatewayWarning) else None

    # ------------------------------------------------------------- one run
    async def go(self):
        rng, cfg = self.rng, self.cfg
        Session.run = Rpc.run = self
        aiohttp.ClientSession = Session
        cl.rpc = Rpc
        cl.warnings = self
        cl.GatewaySecurity.get_connection_args = lambda self, role: {}
        dask.config.set({"gateway.address": None, "gateway.public-address": None, "gateway.proxy-address": None, "gateway.http-client.proxy": None,
                         "gateway.cluster.options": {}})
        a = self.auth_obj()
        self.gateway = cl.Gateway(address=self.addr, proxy_address=self.proxy_arg, public_address=self.public_arg, auth=a, asynchronous=True)
        for _ in range(rng.randint(0, 2)):
            self.nc += 1
            self.clusters["c%d" % self.nc] = {"phase": "PENDING", "n": self.nc, "dash": True}
            self.spawn(self.life("c%d" % self.nc))
        calls = 0
        for _ in range(cfg["len"]):
            if rng.random() < 0.6:
                self.spawn(self.story(self.create()))
            elif calls == 0:
                calls = 1
                t = self.spawn(self.call())
                await asyncio.wait([t])                 # one at a time, so that requests are told apart
                calls = 0
            await self.pause(rng.choice(cfg["gaps"]))
        self.calm = True
        await asyncio.sleep(120)
        self.log("end", kind="quiet")
        return {"proxy": self.proxy, "public": self.public, "auth": bool(cfg["auth"]), "slack": 60, "blocking": False, "events": self.ev}


def case(seed):
    rng = random.Random(seed)
    return {"seed": seed, "len": rng.choice([2, 5, 10]), "addr": rng.randrange(len(ADDRS)), "proxy": rng.choice([0, 0, 1, 2, 3]), "public": rng.choice([0, 1]),
            "auth": rng.choice([0, 1, 2]), "cookies": rng.random() < 0.6, "latency": rng.choice([[0], [0, 0.001], [0.001, 0.01, 1]]),
            "down": rng.choice([0, 0, 0.1]), "refuse": rng.choice([0, 0, 0.15, 0.4]), "lose": rng.choice([0, 0, 0.1]), "cancel": rng.choice([0, 0.3, 0.7]),
            "rpcfail": rng.choice([0, 0, 0.5]), "gaps": rng.choice([[0, 0, 0.001, 0.5], [0, 2, 10], [0.5, 30]])}


def one(cfg):
    return vloop.run(Run(cfg).go)
