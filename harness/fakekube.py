"""A Kubernetes API server in memory, below kubernetes_asyncio's HTTP session, in virtual time.

Objects with resource versions, label selectors, name generation, conflicts, JSON patches with
the status subresource, owner-based garbage collection, graceful pod deletion, list and watch
(streams that end, break, lie or expire), latencies, and failing requests, before or after they
took effect.  What happened is told to ``rec``; what a client could see, too.
"""
import asyncio
import datetime as _dt
import json
import random
import time
import types
import urllib.parse

from . import repo, vloop  # noqa: F401
import aiohttp
from kubernetes_asyncio import client as kclient, config as kconfig
from kubernetes_asyncio.client import rest

KINDS = {"pods": ("v1", "Pod"), "endpoints": ("v1", "Endpoints"), "secrets": ("v1", "Secret"), "services": ("v1", "Service"),
         "daskclusters": ("gateway.dask.org/v1alpha1", "DaskCluster"),
         "ingressroutes": ("traefik.io/v1alpha1", "IngressRoute"),
         "ingressroutetcps": ("traefik.io/v1alpha1", "IngressRouteTCP")}
HOST = "http://kube"


def copy(x):
    return json.loads(json.dumps(x))


def stamp(t=None):
    return time.strftime("%Y-%m-%dT%H:%M:%SZ", _gmtime(time.time() if t is None else t))


_gmtime = time.gmtime


class _VDate(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(time.time(), tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(time.time(), _dt.timezone.utc).replace(tzinfo=None)


_vmod = types.ModuleType("datetime")
_vmod.__dict__.update(_dt.__dict__)
_vmod.datetime = _VDate


def patch_dates(*mods):
    """datetime.now() in these modules follows the virtual clock."""
    for m in mods:
        for k, v in list(vars(m).items()):
            if v is _dt.datetime:
                setattr(m, k, _VDate)
            elif v is _dt:
                setattr(m, k, _vmod)
    time.gmtime = lambda secs=None: _gmtime(time.time() if secs is None else secs)


class Content:
    def __init__(self, watch):
        self.watch = watch

    async def readline(self):
        return await self.watch.readline()


class Response:
    def __init__(self, status, body, content=None):
        self.status, self.body, self.content = status, body, content
        self.reason = {200: "OK", 201: "Created"}.get(status, "Error")
        self.headers = {"content-type": "application/json"}
        self.closed = False

    async def read(self):
        return self.body

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.closed = True
        if self.content is not None and getattr(self.content, "watch", None) is not None:
            self.content.watch.close()

    def release(self):
        self.closed = True

    close = release


class Lines:
    """A body that is read by lines."""
    watch = None

    def __init__(self, data):
        self.lines = data.splitlines(True)

    async def readline(self):
        await asyncio.sleep(0.001)
        return self.lines.pop(0) if self.lines else b""


class Request:
    def __init__(self, verb, kind, ns, name, sub, query, body, who):
        self.verb, self.kind, self.ns, self.name, self.sub = verb, kind, ns, name, sub
        self.query, self.body, self.who = query, body, who


class Watch:
    def __init__(self, srv, kind, pos, selector, timeout, who):
        self.srv, self.kind, self.pos, self.selector, self.who = srv, kind, pos, selector, who
        self.end = srv.now() + timeout
        self.fate = None
        self.closed = False
        self.wake = asyncio.Event()
        srv.watches.append(self)

    def close(self):
        if not self.closed:
            self.closed = True
            self.srv.watches.remove(self)

    def kill(self, how):
        self.fate = how
        self.wake.set()

    async def readline(self):
        srv = self.srv
        while True:
            if self.fate:
                how, self.fate = self.fate, None
                line = self.broken(how)
                if line is not None:
                    return line
            nxt = srv.next_event(self)
            now = srv.now()
            if nxt is not None and nxt[0] <= now + 1e-9 and not srv.held(self.kind, self.who):
                _, rv, typ, obj = nxt
                self.pos = rv
                srv.rec({"e": "seen", "kind": self.kind, "name": srv.key(obj), "rv": rv, "type": typ, "obj": obj, "who": self.who})
                return (json.dumps({"type": typ, "object": obj}) + "\n").encode()
            if now >= self.end - 1e-9:
                return b""
            until = self.end if nxt is None or srv.held(self.kind, self.who) else min(self.end, max(nxt[0], now + 1e-6))
            self.wake.clear()
            try:
                await asyncio.wait_for(self.wake.wait(), max(until - now, 1e-6))
            except asyncio.TimeoutError:
                pass

    def broken(self, how):
        if how == "eof":
            self.end = 0
            return b""
        if how == "exc":
            raise aiohttp.ClientPayloadError("connection lost")
        if how == "os":
            raise OSError("connection reset by peer")
        if how == "garbage":
            return b"<html>bad gateway</html>\n"
        if how == "partial":
            return b'{"type": "ADDED", "object": {"metada'
        if how == "utf8":
            return b"\xff\xfe\n"
        if how == "blank":
            return b"\n"
        if how in ("410", "500", "403"):
            return (json.dumps({"type": "ERROR", "object": {"kind": "Status", "apiVersion": "v1", "metadata": {}, "status": "Failure",
                                                            "message": "gone", "reason": "Expired", "code": int(how)}}) + "\n").encode()
        if how == "error-odd":
            return b'{"type": "ERROR", "object": {}}\n'
        if how == "no-object":
            return b'{"type": "ADDED"}\n'
        if how == "no-type":
            return b'{"object": {}}\n'
        if how == "no-meta":
            return b'{"type": "MODIFIED", "object": {"spec": {}}}\n'
        if how == "list":
            return b'[1]\n'
        if how == "number":
            return b'5\n'
        if how == "bookmark":
            return (json.dumps({"type": "BOOKMARK", "object": {"metadata": {"resourceVersion": str(self.pos)}}}) + "\n").encode()
        raise ValueError(how)


BREAKS = ["eof", "exc", "os", "garbage", "partial", "utf8", "blank", "410", "500", "403", "error-odd", "no-object", "no-type", "no-meta",
          "list", "number", "bookmark"]


class Server:
    def __init__(self, seed=0):
        self.rng = random.Random(seed)
        self.rv = self.rng.choice([1, 7, 88, 100, 985])
        self.objs = {}                      # (kind, ns, name) -> obj
        self.logs = {k: [] for k in KINDS}  # (time, rv, type, obj)
        self.floor = {k: 0 for k in KINDS}
        self.watches = []
        self.holds = set()                  # (kind, who)
        self.lag = {}                       # kind -> seconds
        self.latency = lambda req: 0.002
        self.policy = lambda req: None      # -> ("status", n) | ("before", exc) | ("after", exc) | ("slow", before, after)
        self.rec = lambda ev: None
        self.gc_delay = 0.5
        self.grace = 2.0
        self.done = lambda req: None
        self.calls = []                     # (time, who, verb, kind)
        self.dead = set()                   # clients that no longer exist
        self.uids = 0
        self.down = False

    def now(self):
        return asyncio.get_running_loop().time()

    # ------------------------------------------------------------- store
    @staticmethod
    def key(obj):
        return obj["metadata"]["namespace"] + "." + obj["metadata"]["name"]

    def bump(self, kind, typ, obj):
        self.rv += 1
        obj["metadata"]["resourceVersion"] = str(self.rv)
        log = self.logs[kind]
        at = self.now() + self.lag.get(kind, 0)
        if log:
            at = max(at, log[-1][0])
        log.append((at, self.rv, typ, copy(obj)))
        self.rec({"e": "change", "kind": kind, "name": self.key(obj), "rv": self.rv, "type": typ, "obj": copy(obj)})
        for w in list(self.watches):
            w.wake.set()

    def create(self, kind, ns, obj, who="driver"):
        obj = copy(obj)
        m = obj.setdefault("metadata", {})
        m["namespace"] = ns
        if "name" not in m:
            while True:
                m["name"] = m["generateName"] + "".join(self.rng.choice("bcdfghjklmnpqrstvwxz2456789") for _ in range(5))
                if (kind, ns, m["name"]) not in self.objs:
                    break
        if (kind, ns, m["name"]) in self.objs:
            return None
        self.uids += 1
        m["uid"] = "uid-%d" % self.uids
        m["creationTimestamp"] = stamp()
        obj["apiVersion"], obj["kind"] = KINDS[kind]
        if kind == "pods":
            obj["status"] = {"phase": "Pending"}
        if kind == "daskclusters":
            obj.pop("status", None)
        self.objs[kind, ns, m["name"]] = obj
        self.rec({"e": "create", "kind": kind, "name": self.key(obj), "obj": copy(obj), "who": who})
        self.bump(kind, "ADDED", obj)
        self.gc_soon()
        return obj

    def modify(self, kind, ns, name, fn):
        obj = self.objs.get((kind, ns, name))
        if obj is None:
            return None
        before = json.dumps(obj, sort_keys=True)
        new = copy(obj)
        fn(new)
        if json.dumps(new, sort_keys=True) != before:
            self.objs[kind, ns, name] = new
            self.bump(kind, "MODIFIED", new)
        return new

    def remove(self, kind, ns, name):
        obj = self.objs.pop((kind, ns, name), None)
        if obj is not None:
            self.bump(kind, "DELETED", obj)
            self.gc_soon()
        return obj

    def delete(self, kind, ns, name, who="driver"):
        obj = self.objs.get((kind, ns, name))
        if obj is None:
            return False
        self.rec({"e": "delete", "kind": kind, "name": self.key(obj), "who": who})
        if kind == "pods" and obj.get("status", {}).get("phase") == "Running":
            if "deletionTimestamp" not in obj["metadata"]:
                self.modify(kind, ns, name, lambda o: o["metadata"].__setitem__("deletionTimestamp", stamp()))
                uid = obj["metadata"]["uid"]

                def gone():
                    o = self.objs.get((kind, ns, name))
                    if o is not None and o["metadata"]["uid"] == uid:
                        self.remove(kind, ns, name)
                asyncio.get_running_loop().call_later(self.grace, gone)
        else:
            self.remove(kind, ns, name)
        return True

    def gc_soon(self):
        asyncio.get_running_loop().call_later(self.gc_delay, self.gc)

    def gc(self):
        uids = {o["metadata"]["uid"] for o in self.objs.values()}
        for (kind, ns, name), o in list(self.objs.items()):
            refs = o["metadata"].get("ownerReferences") or []
            if refs and not any(r["uid"] in uids for r in refs) and "deletionTimestamp" not in o["metadata"]:
                self.delete(kind, ns, name, who="gc")

    # ------------------------------------------------------------- clients
    def held(self, kind, who):
        return (kind, who) in self.holds

    def hold(self, kind, who):
        self.holds.add((kind, who))

    def release(self, kind, who):
        self.holds.discard((kind, who))
        for w in list(self.watches):
            w.wake.set()

    def matches(self, obj, selector):
        labels = obj["metadata"].get("labels") or {}
        return all(labels.get(k) == v for k, v in selector)

    def next_event(self, w):
        for at, rv, typ, obj in self.logs[w.kind]:
            if rv > w.pos and self.matches(obj, w.selector):
                return at, rv, typ, obj
        return None

    def compact(self, kind):
        """Forget the history of a kind."""
        self.floor[kind] = self.rv

    def status(self, code, message="error"):
        return Response(code, json.dumps({"kind": "Status", "apiVersion": "v1", "metadata": {}, "status": "Failure",
                                          "message": message, "reason": "x", "code": code}).encode())

    async def handle(self, who, method, url, data):
        p = urllib.parse.urlsplit(url)
        q = dict(urllib.parse.parse_qsl(p.query))
        parts = [urllib.parse.unquote(x) for x in p.path.strip("/").split("/")]
        parts = parts[2:] if parts[0] == "api" else parts[3:]
        ns = name = sub = None
        if parts[0] == "namespaces" and len(parts) > 2:
            ns, parts = parts[1], parts[2:]
        kind = parts[0]
        name = parts[1] if len(parts) > 1 else None
        sub = parts[2] if len(parts) > 2 else None
        verb = {"GET": "get" if name else "list", "POST": "create", "DELETE": "delete", "PATCH": "patch", "PUT": "put"}[method]
        if verb == "list" and q.get("watch", "").lower() == "true":
            verb = "watch"
        body = json.loads(data) if data else None
        req = Request(verb, kind, ns, name, sub, q, body, who)
        self.calls.append((self.now(), who, verb, kind))
        self.rec({"e": "call", "verb": verb, "kind": kind, "name": "%s.%s" % (ns, name) if name else "", "req": req, "who": who})
        try:
            return await self.serve(req, who, verb, kind, ns, name)
        finally:
            if who not in self.dead:
                self.done(req)

    async def serve(self, req, who, verb, kind, ns, name):
        act = self.policy(req)
        before, after = self.latency(req), 0.001
        if act and act[0] == "slow":
            before, after, act = act[1], act[2], None
        await asyncio.sleep(before)
        if self.down:
            act = act or ("before", OSError("connection refused"))
        if act and act[0] == "status":
            if verb == "watch":
                r = self.status(act[1])
                r.content = Lines(r.body + b"\n")
                return r
            return self.status(act[1])
        if act and act[0] == "body":
            r = Response(200, act[1])
            r.content = Lines(act[1])
            return r
        if act and act[0] == "before":
            raise act[1]
        r = self.apply(req)
        if verb not in ("watch", "list"):
            self.rec({"e": "served", "verb": verb, "kind": kind, "name": "%s.%s" % (ns, name) if name else "", "status": r.status,
                      "req": req, "who": who, "lost": bool(act), "body": r.body})
        if act and act[0] == "after":
            await asyncio.sleep(after)
            raise act[1]
        if verb == "list":
            # the reply leaves now; what it says was true now
            self.rec({"e": "listed", "kind": kind, "rv": self.rv, "items": [copy(o) for o in r.items], "who": who})
        await asyncio.sleep(after if verb not in ("list", "watch") else 0)
        return r

    def apply(self, req):
        kind, ns, name, q = req.kind, req.ns, req.name, req.query
        if kind not in KINDS:
            return self.status(404)
        if req.verb in ("list", "watch"):
            sel = [tuple(x.split("=", 1)) for x in q.get("labelSelector", "").split(",") if x]
            if req.verb == "list":
                items = [copy(o) for (k, n, _), o in sorted(self.objs.items()) if k == kind and (ns is None or n == ns)
                         and self.matches(o, sel)]
                r = Response(200, json.dumps({"apiVersion": KINDS[kind][0], "kind": KINDS[kind][1] + "List",
                                              "metadata": {"resourceVersion": str(self.rv)}, "items": items}).encode())
                r.items = items
                return r
            pos = int(q.get("resourceVersion") or 0)
            if pos < self.floor[kind]:
                if self.rng.random() < 0.5:
                    r = self.status(410, "too old resource version")
                    r.content = Lines(r.body + b"\n")
                    return r
                w = Watch(self, kind, pos, sel, float(q.get("timeoutSeconds", 300)), req.who)
                w.kill("410")
                return Response(200, b"", Content(w))
            w = Watch(self, kind, pos, sel, float(q.get("timeoutSeconds", 300)), req.who)
            return Response(200, b"", Content(w))
        if req.verb == "create":
            o = self.create(kind, ns, req.body, who=req.who)
            return self.status(409, "already exists") if o is None else Response(201, json.dumps(o).encode())
        o = self.objs.get((kind, ns, name))
        if o is None:
            return self.status(404, "not found")
        if req.verb == "get":
            return Response(200, json.dumps(o).encode())
        if req.verb == "delete":
            self.delete(kind, ns, name, who=req.who)
            return Response(200, json.dumps(o).encode())
        if req.verb == "patch":
            bad = []

            def fn(o):
                for op in req.body:
                    path = [x.replace("~1", "/").replace("~0", "~") for x in op["path"].strip("/").split("/")]
                    if req.sub is None and path[0] == "status" or req.sub == "status" and path[0] not in ("status", "metadata"):
                        continue               # only through the other resource
                    at = o
                    for x in path[:-1]:
                        at = at.get(x)
                        if at is None:
                            bad.append(op)
                            return
                    if op["op"] == "test":
                        if at.get(path[-1]) != op["value"]:
                            bad.append(op)
                            return
                    elif op["op"] == "remove":
                        if path[-1] not in at:
                            bad.append(op)
                            return
                        del at[path[-1]]
                    elif op["op"] == "replace" and path[-1] not in at:
                        bad.append(op)
                        return
                    else:
                        at[path[-1]] = copy(op["value"])
            probe = copy(o)
            fn(probe)
            if bad:
                return self.status(422, "the patch does not apply")
            self.rec({"e": "patch", "kind": kind, "name": self.key(o), "sub": req.sub or "", "old": copy(o), "new": copy(probe), "who": req.who,
                      "ops": req.body})
            return Response(200, json.dumps(self.modify(kind, ns, name, fn)).encode())
        return self.status(405)

    def break_watches(self, how, kind=None, who=None):
        n = 0
        for w in list(self.watches):
            if (kind is None or w.kind == kind) and (who is None or w.who == who):
                w.kill(how)
                n += 1
        return n


class Session:
    """Takes the place of the client's aiohttp session."""

    def __init__(self, server, who):
        self.server, self.who = server, who
        self.closed = False

    async def request(self, method, url, timeout=None, headers=None, data=None, **kw):
        if self.who in self.server.dead:
            await asyncio.Event().wait()
        return await self.server.handle(self.who, method, url, data)

    async def close(self):
        self.closed = True


_target = [None, None]


def connect(server, who):
    """ApiClients made from now on talk to ``server`` as ``who``."""
    _target[:] = [server, who]


def _init(self, configuration, pools_size=4, maxsize=None):
    self.server_hostname = None
    self.proxy = None
    self.proxy_headers = None
    self.pool_manager = Session(*_target)


def _incluster(*a, **kw):
    c = kclient.Configuration()
    c.host = HOST
    kclient.Configuration.set_default(c)


rest.RESTClientObject.__init__ = _init
kconfig.load_incluster_config = _incluster
