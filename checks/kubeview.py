"""C22: the gateway's view of clusters on Kubernetes and what it does to them (spec/KubeView.tla)."""
import asyncio
import base64
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import dbworld, fakehttp, fakekube, http, par, report, tlc, vloop  # noqa: E402
import aiohttp  # noqa: E402
from traitlets.config import Config  # noqa: E402
from dask_gateway_server import app as gwapp  # noqa: E402
from dask_gateway_server import models  # noqa: E402
from dask_gateway_server.backends.kubernetes import backend as kbackend, utils as kutils  # noqa: E402
from dask_gateway_server.options import Options, String  # noqa: E402

fakekube.patch_dates(kbackend, kutils)
NS = "ns"
USERS = ["alice", "bob", "al.ice"]


def b64(s):
    return base64.b64encode(s.encode()).decode()


def wall(t):
    """ms since the epoch -> ms of the trace."""
    return -1 if t is None else int(round(t - (vloop.EPOCH + 1000) * 1000))


class Run:
    def __init__(self, cfg):
        self.cfg, self.rng = cfg, random.Random(cfg["seed"])
        s = self.s = fakekube.Server(cfg["seed"])
        s.rec, s.policy, s.done = self.rec, self.policy, self.done
        s.latency = lambda req: self.rng.choice(cfg["latency"])
        self.ev, self.cl, self.vers, self.nv, self.gone, self.plan = [], {}, {}, {}, {}, []
        self.inc, self.nr, self.tasks = 0, 0, set()
        self.up = False

    def ms(self):
        return int(round((self.s.now() - 1000) * 1000))

    def log(self, e, **kw):
        self.ev.append(dict(kw, e=e, at=self.ms()))

    def who(self):
        return "gw%d" % self.inc

    # ------------------------------------------------------------- what happens at the server
    def short(self, full):
        return self.cl.get(full, "?")

    def rec(self, e):
        x, kind, mine = e["e"], e["kind"], e.get("who") == self.who()
        if kind == "daskclusters":
            if x == "change":
                o = e["obj"]
                n = o["metadata"]["namespace"] + "." + o["metadata"]["name"]
                if n not in self.cl:
                    self.cl[n] = "c%d" % (len(self.cl) + 1)
                c = self.cl[n]
                self.nv[c] = self.nv.get(c, 0) + 1
                self.vers[c, e["rv"]] = self.nv[c]
                st = o.get("status") or {}
                fin = st.get("completionTime")
                self.log("server", c=c, v=self.nv[c], phase="gone" if e["type"] == "DELETED" else st.get("phase", "none"),
                         owner=o["spec"]["username"], named=bool(st.get("credentials")), svc=bool(st.get("service")),
                         opts=json.dumps(o["spec"].get("options") or {}, sort_keys=True),
                         max=((o["spec"].get("config") or {}).get("cluster_max_workers") if True else None) or -1,
                         start=wall(kutils.parse_k8s_timestamp(o["metadata"]["creationTimestamp"])),
                         stop=-1 if fin is None else wall(kutils.parse_k8s_timestamp(fin)),
                         mine=(o["metadata"].get("labels") or {}).get("gateway.dask.org/instance") == "me",
                         active=o["spec"].get("active", True), replicas=o["spec"].get("replicas", 0))
                if e["type"] == "DELETED":
                    self.gone[c] = self.nv[c]
            elif x == "seen" and mine:
                self.seen(e["obj"])
            elif x == "listed" and mine:
                have = set()
                for o in e["items"]:
                    have.add(self.seen(o))
                for c, v in self.gone.items():
                    if c not in have:
                        self.log("seen", c=c, v=v)
            elif x == "call" and mine and e["verb"] == "patch":
                c = self.short("%s.%s" % (e["req"].ns, e["req"].name))
                e["req"].c = c
                for op in e["req"].body:
                    self.log("patch", c=c, path=op["path"] if not e["req"].sub else e["req"].sub, op=op["op"],
                             n=op["value"] if type(op.get("value")) is int else -1, off=op.get("value") is False)
            elif x == "served" and mine:
                e["req"].st = 598 if e["lost"] else e["status"]
            elif x == "call" and mine and e["verb"] == "create":
                self.log("made", ok=self.payload(e["req"].body, e["req"].ns), owner=e["req"].body["spec"]["username"],
                         opts=json.dumps(e["req"].body["spec"].get("options") or {}, sort_keys=True))
            elif x == "call" and mine and e["verb"] not in ("list", "watch"):
                self.log("odd", what=e["verb"] + " " + kind)
        elif kind == "secrets" and mine:
            n = "%s.%s" % (e["req"].ns, e["req"].name.replace("dask-credentials-", ""))
            if x == "call":
                self.log("reading", c=self.short(n))
            elif x == "served":
                e["req"].st = 598 if e["lost"] else e["status"]
        elif x == "call" and mine:
            self.log("odd", what=e["verb"] + " " + kind)

    def seen(self, o):
        c = self.short(o["metadata"]["namespace"] + "." + o["metadata"]["name"])
        self.log("seen", c=c, v=self.vers[c, int(o["metadata"]["resourceVersion"])])
        return c

    def payload(self, o, ns):
        m, bad = o["metadata"], []
        lab = m.get("labels") or {}
        if ns != NS:
            bad.append("namespace")
        if lab.get("gateway.dask.org/instance") != "me" or lab.get("gateway.dask.org/cluster") != m["name"]:
            bad.append("labels")
        if m["name"] in [n.split(".", 1)[1] for n in self.cl]:
            bad.append("name")
        if o["spec"]["config"].get("image") != "img" or o["spec"].get("active", True) is not True or o["spec"].get("replicas", 0) != 0:
            bad.append("spec")
        return bad

    # ------------------------------------------------------------- faults
    def policy(self, req):
        if req.who != self.who():
            return None
        if (req.kind, req.verb) not in {("daskclusters", v) for v in ("list", "watch", "create", "patch", "get")} | {("secrets", "get")}:
            return ("status", 403)
        act = None
        if self.plan and self.plan[0][0] in ("?", req.verb):
            act = self.plan.pop(0)[1]
        return act

    def done(self, req):
        """The gateway has its answer."""
        if req.who != self.who():
            return
        st = getattr(req, "st", 599)
        if req.kind == "secrets":
            self.log("read", c=self.short("%s.%s" % (req.ns, req.name.replace("dask-credentials-", ""))), ok=st == 200)
        elif req.verb in ("patch", "create"):
            self.log("outcome", c=req.c if req.verb == "patch" else "?", st=st)

    def fault(self):
        r = self.rng.random()
        if r < 0.5:
            return ("status", self.rng.choice([403, 409, 429, 500, 503]))
        if r < 0.75:
            return ("before", self.rng.choice([OSError("refused"), aiohttp.ServerDisconnectedError()]))
        if r < 0.9:
            return ("after", aiohttp.ServerDisconnectedError())
        return ("slow", self.rng.choice([0.05, 0.5, 2]), 0.001)

    # ------------------------------------------------------------- the gateway
    def config(self):
        c = Config()
        c.DaskGateway.backend_class = "dask_gateway_server.backends.kubernetes.KubeBackend"
        c.DaskGateway.authenticator_class = "dask_gateway_server.auth.SimpleAuthenticator"
        c.DaskGateway.address = "127.0.0.1:65535"
        c.DaskGateway.config_file = "/nonexistent/config.py"
        c.KubeBackend.gateway_instance = "me"
        c.KubeClusterConfig.namespace = NS
        c.KubeClusterConfig.image = "img"
        if self.cfg["max"] > 0:
            c.ClusterConfig.cluster_max_workers = self.cfg["max"]
        c.Backend.scheduler_api_retries = 2
        c.Backend.cluster_options = Options(String("note", default="x"))
        return c

    async def start(self):
        self.inc += 1
        self.plan.clear()
        self.log("boot")
        fakekube.connect(self.s, self.who())
        fakehttp.install(self.outgoing)
        site, gwapp.web.TCPSite = gwapp.web.TCPSite, dbworld._Site
        loop = asyncio.get_running_loop()
        loop.add_signal_handler = lambda *a: None
        try:
            gw = gwapp.DaskGateway(config=self.config())
            gw.initialize([])
            gw.log.setLevel(100)
            await gw.setup()
        finally:
            gwapp.web.TCPSite = site
        self.gw = gw
        self.up = True

    async def stop(self, graceful):
        self.up = False
        for t in list(self.tasks):
            t.cancel()
        await asyncio.sleep(0)
        if graceful:
            await self.gw.cleanup()
        else:
            self.gw.backend.sync_task.cancel()
        self.s.dead.add(self.who())
        for w in list(self.s.watches):
            if w.who == self.who():
                w.closed = True
                self.s.watches.remove(w)
        await asyncio.sleep(3)

    async def outgoing(self, method, url, headers, body):
        c = next((c for n, c in self.cl.items() if url == "http://dask-%s.%s:8788/api/comm" % (n.split(".")[1], n.split(".")[0])), "?")
        full = next((n for n, x in self.cl.items() if x == c), None)
        self.log("msg", c=c, ok=full is not None and headers.get("Authorization") == "token tok-" + full.split(".")[1] and method == "POST",
                 n=(body or {}).get("count", -1))
        await asyncio.sleep(self.rng.choice([0.001, 0.2]))
        return (200, {}) if self.rng.random() < self.cfg["sched"] else fakehttp.Refused("no scheduler")

    # ------------------------------------------------------------- requests
    def ask(self, *a, **kw):
        t = asyncio.ensure_future(self.request(*a, **kw))
        self.tasks.add(t)
        t.add_done_callback(self.tasks.discard)
        return t

    async def request(self, op, full="", user="", token="none", wait=False, filt=None, n=0):
        self.nr += 1
        r = "r%d" % self.nr
        h, c = {}, self.cl.get(full, "?")
        if user:
            h["Authorization"] = "Basic " + b64(user + ":x")
        elif token != "none":
            other = next((x for x in self.cl if x != full), "x.y")
            h["Authorization"] = {"right": "token tok-" + full.split(".")[-1], "other": "token tok-" + other.split(".")[-1], "bare": "token",
                                  "empty": "token ", "case": "token TOK-" + full.split(".")[-1]}[token]
        self.log("ask", r=r, op=op, c=c, user=user, token=token, wait=wait, filt=filt or [], n=n)
        inc = self.inc
        p = "/api/v1/clusters/"
        if op == "get":
            a = await http.call(self.gw.app, "GET", p + full + ("?wait" if wait else ""), h)
        elif op == "list":
            a = await http.call(self.gw.app, "GET", p + ("?status=" + ",".join(filt).lower() if filt else ""), h)
        elif op == "stop":
            a = await http.call(self.gw.app, "DELETE", p + full, h)
        elif op == "create":
            a = await http.call(self.gw.app, "POST", p, h, {"cluster_options": {"note": "n%d" % n}})
        elif op == "scale":
            a = await http.call(self.gw.app, "POST", p + full + "/scale", h, {"count": n})
        elif op == "beat":
            a = await http.call(self.gw.app, "POST", p + full + "/heartbeat", h,
                                {"api_address": "a", "scheduler_address": "b", "dashboard_address": "c", "count": n,
                                 "active_workers": [], "closing_workers": [], "closed_workers": []})
        if inc != self.inc or not self.up:
            return a
        got = []
        if op == "get" and a.status == 200:
            got = [self.shown(full, a.json)]
        elif op == "list" and a.status == 200:
            got = [self.shown(k, v) for k, v in sorted(a.json.items())]
        self.log("answer", r=r, st=a.status, got=got, new=self.short((a.json or {}).get("name", "?")) if op == "create" else "")
        return a

    def shown(self, full, d):
        name = full.split(".")[-1]
        tls = (d.get("tls_cert"), d.get("tls_key"))
        return {"c": self.short(full) if d.get("name") == full else "?", "status": d["status"], "start": wall(d["start_time"]), "stop": wall(d["stop_time"]),
                "opts": json.dumps(d["options"], sort_keys=True),
                "dash": "none" if d["dashboard_route"] is None else "right" if d["dashboard_route"] == "/clusters/%s/status" % full else "wrong",
                "tls": "none" if tls == (None, None) else "right" if tls == ("CERT " + name, "KEY " + name) else "wrong"}

    # ------------------------------------------------------------- the controller
    def status(self, full, **kw):
        def fn(o):
            st = o.setdefault("status", {})
            st.update(kw)
        self.s.modify("daskclusters", NS, full.split(".")[1], fn)

    def progress(self, full):
        rng, name = self.rng, full.split(".")[1]
        o = self.s.objs.get(("daskclusters", NS, name))
        if o is None:
            return
        ph = (o.get("status") or {}).get("phase", "none")
        end = False
        if ph in ("Stopped", "Failed"):
            if rng.random() < 0.3:
                self.s.remove("daskclusters", NS, name)
        elif not o["spec"].get("active", True):
            end = "Stopped"
        elif ph == "none":
            if rng.random() < 0.1:
                self.s.remove("daskclusters", NS, name)
                return
            if ("secrets", NS, "dask-credentials-" + name) not in self.s.objs:
                self.s.create("secrets", NS, {"metadata": {"name": "dask-credentials-" + name}, "data": {
                    "dask.crt": b64("CERT " + name), "dask.pem": b64("KEY " + name), "api-token": b64("tok-" + name)}})
            if rng.random() < 0.1:
                self.status(full, phase="Pending")         # names nothing yet
            else:
                self.status(full, phase="Pending", credentials="dask-credentials-" + name, schedulerPod="p")
        elif ph == "Pending":
            if rng.random() < 0.15:
                end = "Failed"
            elif rng.random() < 0.3 and not o["status"].get("service"):
                self.status(full, credentials="dask-credentials-" + name, service="dask-" + name)
            else:
                self.status(full, phase="Running", credentials="dask-credentials-" + name, service="dask-" + name, ingressroute="r")
        elif rng.random() < 0.2:
            end = "Failed"
        if end:
            self.s.remove("secrets", NS, "dask-credentials-" + name)
            if rng.random() < 0.1:
                self.s.remove("daskclusters", NS, name)
            else:
                self.status(full, phase=end, completionTime=fakekube.stamp())

    def foreign(self):
        """A cluster of another gateway, or one somebody made by hand."""
        rng = self.rng
        mine = rng.random() < 0.5
        name = "x%x" % rng.getrandbits(40)
        spec = {"username": rng.choice(USERS), "config": {"cluster_max_workers": 2}}
        self.s.create("daskclusters", NS, {"metadata": {"name": name, "labels": {
            "gateway.dask.org/instance": "me" if mine else "you", "gateway.dask.org/cluster": name}}, "spec": spec})

    # ------------------------------------------------------------- one run
    async def step(self):
        rng, cfg = self.rng, self.cfg
        x = rng.random()
        alls = sorted(self.cl)
        if x < 0.03 and len(alls) < 5:
            self.foreign()
            return
        if not alls or (x < 0.12 and len(alls) < 5):
            self.ask("create", user=rng.choice(USERS), n=rng.randint(1, 9))
            return
        full = rng.choice(alls + ([NS + ".nobody"] if rng.random() < 0.1 else []))
        owner = next((self.s.objs[k]["spec"]["username"] for k in self.s.objs if k[0] == "daskclusters" and NS + "." + k[2] == full), "alice")
        user = owner if rng.random() < 0.75 else rng.choice(USERS)
        if x < 0.4:
            self.progress(full)
        elif x < 0.55:
            self.ask("get", full, user=user, wait=rng.random() < 0.7)
        elif x < 0.65:
            filt = None if rng.random() < 0.6 else rng.sample(["PENDING", "RUNNING", "STOPPING", "STOPPED", "FAILED"], rng.randint(1, 3))
            self.ask("list", user=rng.choice(USERS), filt=filt)
        elif x < 0.7:
            if rng.random() < 0.6:
                self.ask("stop", full, user=user)
            else:
                self.ask("stop", full, token=rng.choice(["right", "right", "other", "bare", "empty", "case", "none"]))
        elif x < 0.8:
            self.ask("beat", full, token=rng.choice(["right"] * 6 + ["other", "bare", "empty", "case", "none"]), n=rng.randint(0, 6))
        elif x < 0.84:
            self.ask("scale", full, user=user, n=rng.randint(0, 6))
        elif x < 0.84 + cfg["trouble"]:
            y = rng.random()
            if y < 0.3:
                self.s.break_watches(rng.choice(fakekube.BREAKS), None, self.who())
            elif y < 0.7:
                (self.s.hold if rng.random() < 0.5 else self.s.release)("daskclusters", self.who())
            else:
                self.plan += [(rng.choice(["?", "get", "patch", "create", "get"]), self.fault()) for _ in range(rng.randint(1, 2))]
                self.plan = self.plan[-3:]
        elif x > 0.985 and cfg["restart"]:
            await self.stop(rng.random() < 0.5)
            for _ in range(rng.randint(0, 3)):
                self.progress(full)
            await self.start()

    async def calm(self):
        self.plan.clear()
        self.s.release("daskclusters", self.who())
        await asyncio.sleep(400)
        for u in USERS:
            await self.ask("list", user=u)
            await self.ask("list", user=u, filt=["PENDING", "RUNNING", "STOPPED", "FAILED"])
        for full in sorted(self.cl):
            for u in USERS:
                await self.ask("get", full, user=u)
            await self.ask("beat", full, token="right", n=1)
            await self.ask("beat", full, token=self.rng.choice(["other", "bare", "empty", "case"]), n=1)

    async def go(self):
        await self.start()
        for _ in range(self.cfg["len"]):
            await self.step()
            if self.rng.random() < 0.7:
                await asyncio.sleep(self.rng.choice(self.cfg["gaps"]))
        await self.calm()
        await self.stop(True)
        return {"events": self.ev}


def case(seed):
    rng = random.Random(seed)
    return {"seed": seed, "len": rng.choice([20, 50, 90]), "restart": rng.random() < 0.4, "trouble": rng.choice([0, 0.05, 0.13]),
            "max": rng.choice([0, 0, 3, 5]), "sched": rng.choice([1, 0.5]),
            "latency": rng.choice([[0.002], [0.001, 0.02], [0.001, 0.05, 0.5]]),
            "gaps": rng.choice([[0, 0.001, 0.01, 0.1], [0, 0.01, 1, 5], [0.5, 2, 12]])}


def one(cfg):
    return vloop.run(Run(cfg).go)


def run(c):
    big = c.thorough
    if not os.environ.get("NOMODEL"):
        c.model(tlc.model_check("KubeViewMC", "KubeViewBig.cfg" if big else "KubeViewMC.cfg"), "KubeView")
    cases = [case(c.seed * 1000000 + i) for i in range(int(os.environ.get("N", 0)) or (6000 if big else 700))]
    traces = par.pmap(one, cases, chunk=4)
    kinds = {}
    for tr in traces:
        for e in tr["events"]:
            k = e["e"] if e["e"] != "answer" else "answer %d" % e["st"]
            kinds[k] = kinds.get(k, 0) + 1
    c.note(events=kinds)
    c.sample({"case": cases[0], "events": traces[0]["events"][:6]})
    for i in range(0, len(traces), 1000):
        v = tlc.validate_parallel("KubeViewTrace", "KubeViewTrace.cfg", traces[i:i + 1000])
        c.traces_ok(len(v["verdicts"]), v["states"], v["distinct"])
        for cs, tr, r in zip(cases[i:], traces[i:], v["verdicts"]):
            why = [w if isinstance(w, dict) else {"what": w, "at": 0} for w in r["why"]]
            if why:
                f = min(why, key=lambda w: w["at"])
                c.violation(f["what"], {"case": cs, "at": f["at"], "all": why, "trace": tr})


if __name__ == "__main__":
    report.main(run)
