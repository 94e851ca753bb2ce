"""The real gateway (app + routes + DB backend + proxy bookkeeping) in virtual time, with a
backend whose hooks are held until the driver releases them.  Records traces for
spec/GatewayTrace.tla."""
import asyncio
import base64
import itertools
import json
import os
import shutil
import sqlite3
import tempfile

from . import http, repo, vloop  # noqa: F401
import dask_gateway_server.tls as _tls

_n = itertools.count()


def _fast_keypair(sni):
    """RSA generation is slow and not under test here (see the tls checks)."""
    i = next(_n)
    return b"CERT %d %s" % (i, sni.encode()), b"KEY %d" % i


_REAL_KEYPAIR = _tls.new_keypair
_tls.new_keypair = _fast_keypair

import sqlalchemy as sa  # noqa: E402
from traitlets.config import Config  # noqa: E402

from dask_gateway_server import app as _app  # noqa: E402
from dask_gateway_server.backends import db_base  # noqa: E402
from dask_gateway_server.options import Bool as OBool, Integer as OInteger, Options, String as OString  # noqa: E402

db_base.new_keypair = _fast_keypair

UNIT = 0.125
T0 = 1000.0
KEY = base64.b64encode(b"0123456789abcdef0123456789abcdef").decode()


_recording = []      # the world whose commits are being recorded, if any


@sa.event.listens_for(sa.engine.Engine, "commit")
def _on_commit(conn):
    # called right before COMMIT: a crash now would leave what is on disk now
    for w in _recording:
        if str(conn.engine.url).endswith(w.path) and not w.inc.dead:
            w.commits.append((w.now(), w.image()))


@sa.event.listens_for(sa.engine.Engine, "connect")
def _fast_sqlite(dbapi_con, con_record):
    cur = dbapi_con.cursor()
    cur.execute("PRAGMA synchronous=OFF")
    cur.close()


class _Site:
    def __init__(self, *a, **k):
        pass

    async def start(self):
        pass


def units(ms):
    if ms is None:
        return -1
    return int(round((ms / 1000.0 - vloop.EPOCH - T0) / UNIT))


class HookError(Exception):
    pass


class Incarnation:
    """What the backend hooks of one gateway process see and do."""

    def __init__(self, world):
        self.world = world
        self.dead = False
        self.calls = {}      # object -> (op, queue)
        self.nstart, self.nstop, self.stopstate = {}, {}, {}
        self.checking, self.wchecking = [], []
        self.check_fut = self.wcheck_fut = None

    def begin(self, obj, op):
        o = self.world.oname(obj)
        if self.dead:
            return o, asyncio.Queue()
        cnt = self.nstart if op == "start" else self.nstop
        cnt[o] = cnt.get(o, 0) + 1
        if o in self.calls:
            self.world.errors.append("callback %s of %s while %s is running" % (op, o, self.calls[o][0]))
        q = asyncio.Queue()
        self.calls[o] = (op, q)
        if op == "stop":
            self.stopstate[o] = (obj.state or {}).get("k", 0)
        return o, q

    def end(self, o, q):
        if self.calls.get(o, (None, None))[1] is q:
            del self.calls[o]


class HeldBackend(db_base.DBBackendBase):
    def _start(self, obj):
        inc = self.inc
        inc.world.remember(obj)

        async def gen():
            o, q = inc.begin(obj, "start")
            try:
                while True:
                    cmd = await q.get()
                    if cmd[0] == "yield":
                        yield {"k": cmd[1]}
                    elif cmd[0] == "ok":
                        return
                    else:
                        raise HookError("start failed")
            finally:
                inc.end(o, q)
        return gen()

    async def _stop(self, obj):
        o, q = self.inc.begin(obj, "stop")
        try:
            cmd = await q.get()
            if cmd[0] != "ok":
                raise HookError("stop failed")
        finally:
            self.inc.end(o, q)

    def do_start_cluster(self, cluster):
        return self._start(cluster)

    def do_start_worker(self, worker):
        return self._start(worker)

    async def do_stop_cluster(self, cluster):
        await self._stop(cluster)

    async def do_stop_worker(self, worker):
        await self._stop(worker)

    async def do_check_clusters(self, clusters):
        return await self._check("check_fut", "checking", clusters)

    async def do_check_workers(self, workers):
        return await self._check("wcheck_fut", "wchecking", workers)

    async def _check(self, fut, field, objs):
        if not objs:
            return []
        inc = self.inc
        f = asyncio.get_running_loop().create_future()
        setattr(inc, fut, f)
        setattr(inc, field, [inc.world.oname(o) for o in objs])
        try:
            dead = await f
            if dead is None:
                raise HookError("status check failed")
            return [inc.world.oname(o) not in dead for o in objs]
        finally:
            if getattr(inc, fut) is f:
                setattr(inc, fut, None)
                setattr(inc, field, [])


class BulkBackend(HeldBackend):
    supports_bulk_shutdown = True


def _options():
    def handler(o):
        cfg = {"environment": {"EV": o.env}}
        if o.max >= 0:
            cfg["cluster_max_workers"] = o.max
        return cfg
    return Options(OInteger("max", default=-1), OString("env", default="x"), handler=handler)


class World:
    DEFAULT = {"par": 20, "bulk": False, "cst": 24, "wst": 24, "hbt": 32, "pT": 8, "pC": 12, "pW": 12,
               "pX": 40, "age": 80, "limit": 2, "stopAll": True}

    def __init__(self, cfg=None, tmp=None):
        self.cfg = dict(self.DEFAULT, **(cfg or {}))
        self.own = tmp is None
        self.dir = tmp or tempfile.mkdtemp(prefix="dbw-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        self.ndb = 0
        self.names = {}        # real name -> c1 / w1
        self.rnames = {}
        self.ident = {}        # cluster -> what must never change
        self.users = {}
        self.errors = []
        self.events = []
        self.down_task = None
        self.waits = {}
        self.t0, self.row0 = 0, None
        self.gw = None
        self.commits = None    # when set: list of database images after each commit

    # ---------------------------------------------------------------- names
    def oname(self, obj):
        return self.names.get(obj.name) or self._learn(obj.name)

    def _learn(self, name):
        self.scan()
        return self.names.get(name, "?" + name[:6])

    def scan(self, path=None):
        con = sqlite3.connect(path or self.path)
        try:
            cl = con.execute("select id,name,username,status,target,count,state,scheduler_address,"
                             "dashboard_address,start_time,stop_time,config from clusters order by id").fetchall()
            wk = con.execute("select id,name,cluster_id,status,target,state,start_time,stop_time,close_expected"
                             " from workers order by id").fetchall()
        finally:
            con.close()
        for r in cl:
            if r[1] not in self.names:
                n = "c%d" % (1 + sum(1 for v in self.names.values() if v[0] == "c"))
                self.names[r[1]] = n
                self.rnames[n] = r[1]
        for r in wk:
            if r[1] not in self.names:
                n = "w%d" % (1 + sum(1 for v in self.names.values() if v[0] == "w"))
                self.names[r[1]] = n
                self.rnames[n] = r[1]
        return cl, wk

    def remember(self, obj):
        if isinstance(obj, db_base.Cluster):
            ident = self._ident(obj)
            self.ident.setdefault(self.oname(obj), ident)

    @staticmethod
    def _ident(c):
        return (c.name, c.username, c.token, c.tls_cert, c.tls_key, json.dumps(c.options, sort_keys=True),
                json.dumps(dict(c.config), sort_keys=True))

    # ---------------------------------------------------------------- time
    def now(self):
        return int(round((asyncio.get_running_loop().time() - T0) / UNIT))

    async def at(self, t):
        d = T0 + t * UNIT - asyncio.get_running_loop().time()
        if d > 0:
            await asyncio.sleep(d)
        await vloop.settle(40)

    # ---------------------------------------------------------------- gateway processes
    def _config(self):
        g, u = self.cfg, UNIT
        c = Config()
        c.DaskGateway.backend_class = BulkBackend if g["bulk"] else HeldBackend
        c.DaskGateway.authenticator_class = "dask_gateway_server.auth.SimpleAuthenticator"
        c.DaskGateway.address = "127.0.0.1:65535"
        c.DaskGateway.config_file = os.path.join(self.dir, "none.py")
        c.Proxy.externally_managed = True
        c.Proxy.address = "127.0.0.1:65534"
        c.Proxy.tcp_address = "127.0.0.1:65533"
        b = c.DBBackendBase
        b.db_url = "sqlite:///" + self.path
        b.db_encrypt_keys = [KEY]
        b.db_cleanup_period = g["pX"] * u
        b.db_cluster_max_age = g["age"] * u
        b.stop_clusters_on_shutdown = g["stopAll"]
        b.cluster_status_period = g["pC"] * u
        b.worker_status_period = g["pW"] * u
        b.cluster_heartbeat_timeout = g["hbt"] * u
        b.cluster_start_timeout = g["cst"] * u
        b.worker_start_timeout = g["wst"] * u
        b.check_timeouts_period = g["pT"] * u
        b.worker_start_failure_limit = g["limit"]
        b.parallelism = g["par"]
        c.Backend.cluster_options = _options()
        return c

    @property
    def path(self):
        return os.path.join(self.dir, "db%d.sqlite" % self.ndb)

    async def up(self, image=None):
        """Start a gateway process on a copy of database ``image`` (or the current one)."""
        if image is not None:
            self.ndb += 1
            with open(self.path, "wb") as f:
                f.write(image)
        inc = Incarnation(self)
        site, _app.web.TCPSite = _app.web.TCPSite, _Site
        try:
            gw = _app.DaskGateway(config=self._config())
            gw.initialize([])
            gw.backend.inc = inc
            self.inc, self.gw = inc, gw
            await gw.authenticator.setup(gw.app)
            # as DaskGateway.setup does, without signal handlers
            loop = asyncio.get_running_loop()
            add = loop.add_signal_handler
            loop.add_signal_handler = lambda *a: None
            try:
                await gw.setup()
            finally:
                loop.add_signal_handler = add
        finally:
            _app.web.TCPSite = site
        if self.commits is not None and self not in _recording:
            _recording[:] = [self]
        await vloop.settle(40)

    def image(self):
        """What a crash right now would leave on disk."""
        src = sqlite3.connect(self.path)
        try:
            return src.serialize()
        finally:
            src.close()

    async def kill(self):
        """Abandon the current process, as a crash would (its file is no longer used)."""
        self.inc.dead = True
        me = asyncio.current_task()
        self.ndb += 1           # whatever the dying tasks still write goes to the old file
        for t in asyncio.all_tasks():
            if t is not me:
                t.cancel()
        await vloop.settle(5)
        self.down_task = None
        self.waits = {}
        try:
            await self.gw.backend.session.close()
        except Exception:
            pass

    async def crash(self):
        img = self.image()
        await self.kill()
        await self.up(img)

    def close(self):
        if self in _recording:
            _recording.remove(self)
        if self.own:
            shutil.rmtree(self.dir, ignore_errors=True)

    # ---------------------------------------------------------------- HTTP
    async def http(self, method, path, auth=None, body=None):
        r = await http.call(self.gw.app, method, path, {"Authorization": auth} if auth else {}, body)
        return r.status, (r.json if r.exc is None else repr(r.exc))

    @staticmethod
    def basic(user):
        return "Basic " + base64.b64encode(("%s:pw" % user).encode()).decode()

    # ---------------------------------------------------------------- what can be observed
    @staticmethod
    def _num(addr):
        if not addr:
            return -1
        return int(addr.rsplit(":", 1)[1])

    def rows(self, path=None):
        cl, wk = self.scan(path)
        ids = {}
        res = {"cl": {}, "wk": {}, "corder": [], "worder": []}
        for i, name, user, st, tg, count, state, sa_, da, start, stop, config in cl:
            c = self.names[name]
            ids[i] = c
            res["corder"].append(c)
            mx = json.loads(config).get("cluster_max_workers")
            res["cl"][c] = {"user": user, "status": st, "target": tg, "count": count,
                            "max": -1 if mx is None else mx,
                            "state": json.loads(state).get("k", 0), "addr": self._num(sa_), "dash": bool(da),
                            "start": units(start), "stop": units(stop)}
        for i, name, cid, st, tg, state, start, stop, ce in wk:
            w = self.names[name]
            res["worder"].append(w)
            res["wk"][w] = {"c": ids.get(cid, "?"), "status": st, "target": tg,
                            "state": json.loads(state).get("k", 0), "start": units(start), "stop": units(stop),
                            "closeExp": bool(ce)}
        res["nw"] = sum(1 for v in self.names.values() if v[0] == "w")
        return res

    async def snap(self):
        rows = self.rows()
        api, errors, listing = {}, list(self.errors), []
        seen_users = set(self.users.values())
        for c in sorted(self.users):
            st, d = await self.http("GET", "/api/v1/clusters/" + self.rnames[c], self.basic(self.users[c]))
            if st == 404:
                continue
            if st != 200:
                errors.append("GET %s: %s %s" % (c, st, d))
                continue
            m = await self.gw.backend.get_cluster(self.rnames[c])
            route = d.get("dashboard_route")
            if route not in (None, "/clusters/%s/status" % self.rnames[c]):
                errors.append("dashboard route %s of %s" % (route, c))
            creds = bool(d.get("tls_cert")) and bool(d.get("tls_key"))
            if creds and (d["tls_cert"].encode(), d["tls_key"].encode()) != (m.tls_cert, m.tls_key):
                errors.append("wrong credentials for " + c)
            ident = (m.name, m.username, m.token, m.tls_cert, m.tls_key, json.dumps(m.options, sort_keys=True),
                     json.dumps(dict(m.config), sort_keys=True))
            self.ident.setdefault(c, ident)
            if d["name"] != self.rnames[c] or json.dumps(d["options"], sort_keys=True) != ident[5]:
                errors.append("name/options of " + c)
            api[c] = {"status": d["status"].lower(), "user": m.username, "addr": self._num(m.scheduler_address),
                      "dash": route is not None, "start": units(d["start_time"]), "stop": units(d["stop_time"]),
                      "identity": ident == self.ident[c], "creds": creds}
        for u in sorted(seen_users):
            st, d = await self.http("GET", "/api/v1/clusters/", self.basic(u))
            if st != 200:
                errors.append("list %s: %s %s" % (u, st, d))
                continue
            for name, x in d.items():
                c = self.names.get(name, name)
                listing.append(c)
                if c in api and (x["status"].lower() != api[c]["status"] or api[c]["user"] != u):
                    errors.append("list and single view disagree about " + c)
            st, d = await self.http("GET", "/api/v1/clusters/?status=pending,running,stopping,stopped,failed",
                                    self.basic(u))
            if st != 200 or {self.names.get(k, k) for k in d} != {c for c in api if api[c]["user"] == u}:
                errors.append("unfiltered list of %s: %s %s" % (u, st, d and sorted(d)))
        inc = self.inc
        return {"errors": errors, "api": api, "list": listing,
                "cl": {c: {k: r[k] for k in ("status", "target", "count", "state", "addr", "dash", "stop")}
                       for c, r in rows["cl"].items()},
                "wk": {w: {k: r[k] for k in ("c", "status", "target", "state", "stop", "closeExp")}
                       for w, r in rows["wk"].items()},
                "calls": {o: v[0] for o, v in inc.calls.items()},
                "nstart": dict(inc.nstart), "nstop": dict(inc.nstop), "stopstate": dict(inc.stopstate),
                "checking": list(inc.checking), "wchecking": list(inc.wchecking),
                "waits": {i: {"done": t.done(), "status": self._wait_status(t)} for i, t in self.waits.items()},
                "routes": await self.routes(errors), "down": bool(self.down_task and self.down_task.done())}

    @staticmethod
    def _wait_status(t):
        if not t.done() or t.cancelled() or t.exception():
            return ""
        st, d = t.result()
        return d["status"].lower() if st == 200 else str(st)

    async def routes(self, errors):
        res = {}
        proxy = self.gw.backend.proxy
        st, d = await self.http("GET", "/api/v1/routes", "token " + proxy.api_token)
        if st != 200:
            errors.append("routes: %s %s" % (st, d))
            return res
        for r in d["routes"]:
            if r["kind"] == "SNI":
                c = self.names.get(r["sni"], r["sni"])
                res.setdefault(c, {"sni": -1, "dash": False})["sni"] = self._num(r["target"])
            elif r["path"].startswith(proxy.prefix + "/clusters/"):
                c = self.names.get(r["path"].rsplit("/", 1)[1], r["path"])
                e = res.setdefault(c, {"sni": -1, "dash": False})
                e["dash"] = True
                e["dnum"] = self._num(r["target"])
        for c, e in res.items():
            n = e.pop("dnum", None)
            if n is not None and n != e["sni"] + 100:
                errors.append("dashboard route of %s -> %s" % (c, n))
        return res

    # ---------------------------------------------------------------- events
    async def do(self, ev):
        """Perform one event at its instant and record what was observed."""
        await self.at(ev["now"])
        e = ev["e"]
        self.errors = []
        inc = self.inc
        if e == "start":
            st, d = await self.http("POST", "/api/v1/clusters/", self.basic(ev["user"]),
                                    {"cluster_options": {"max": ev["max"], "env": "v%d" % ev["now"]}})
            ev["http"] = st
            self.scan()
            got = self.names.get((d or {}).get("name"), None)
            if got != ev["c"]:
                self.errors.append("new cluster is %s, expected %s" % (got, ev["c"]))
            self.users[ev["c"]] = ev["user"]
        elif e == "stop":
            name = self.rnames[ev["c"]]
            auth = self.basic(self.users[ev["c"]]) if ev["via"] == "user" else "token " + self.token(ev["c"])
            ev["http"], _ = await self.http("DELETE", "/api/v1/clusters/" + name, auth)
        elif e == "fail":
            await self.gw.backend.stop_cluster(self.rnames[ev["c"]], failed=True)
        elif e == "hb":
            m = ev["m"]
            rn = lambda ws: [self.rnames.get(w, w) for w in ws]
            ev["http"], d = await self.http(
                "POST", "/api/v1/clusters/%s/heartbeat" % self.rnames[ev["c"]], "token " + self.token(ev["c"]),
                {"api_address": "http://h:%d" % (m["addr"] + 200), "scheduler_address": "tls://h:%d" % m["addr"],
                 "dashboard_address": "http://h:%d" % (m["addr"] + 100) if m["dash"] else "",
                 "count": m["count"], "active_workers": rn(m["active"]), "closing_workers": rn(m["closing"]),
                 "closed_workers": rn(m["closed"])})
            if ev["http"] == 500:
                self.errors.append("heartbeat: %s" % d)
        elif e == "yield":
            inc.calls[ev["o"]][1].put_nowait(("yield", ev["k"]))
        elif e in ("started", "stopped"):
            inc.calls[ev["o"]][1].put_nowait(("ok",) if ev["ok"] else ("err",))
        elif e == "checked":
            inc.check_fut.set_result(None if ev.get("err") else set(ev["dead"]))
        elif e == "wchecked":
            inc.wcheck_fut.set_result(None if ev.get("err") else set(ev["dead"]))
        elif e == "get":
            self.waits[ev["i"]] = asyncio.ensure_future(self.http(
                "GET", "/api/v1/clusters/" + self.rnames[ev["c"]] + "?wait", self.basic(self.users[ev["c"]])))
        elif e == "crash":
            await self.crash()
        elif e == "shutdown":
            self.down_task = asyncio.ensure_future(self.gw.cleanup())
        await vloop.settle(40)
        ev["snap"] = await self.snap()
        self.events.append(ev)
        return ev

    def token(self, c):
        # fixed at creation; the scheduler got it through its environment
        return self.ident[c][2]

    @classmethod
    async def recovered(cls, parent, now, image):
        """A fresh gateway process started at ``now`` on a database image of ``parent``."""
        w = cls(parent.cfg)
        await w.at(now)
        with open(w.path, "wb") as f:
            f.write(image)
        w.row0 = w.rows()
        w.t0 = now
        known = {v[0]: v for v in parent.ident.values()}
        for c, r in w.row0["cl"].items():
            w.users[c] = r["user"]
            if w.rnames[c] in known:
                w.ident[c] = known[w.rnames[c]]
        await w.up()
        return w

    def trace(self):
        empty = {"cl": {}, "wk": {}, "corder": [], "worder": [], "nw": 0}
        return {"cfg": self.cfg, "t0": self.t0, "rows": self.row0 or empty, "events": self.events}
