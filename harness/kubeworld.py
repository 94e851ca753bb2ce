"""The real Kubernetes controller on a fake API server, with a scripted kubelet, in virtual time.
Records traces for spec/KubeTrace.tla."""
import asyncio
import base64
import json
import random

from . import fakekube, repo, vloop  # noqa: F401
import aiohttp
from traitlets.config import Config
from dask_gateway_server.backends.kubernetes import backend as kbackend, controller as kcontroller, utils as kutils

fakekube.patch_dates(kbackend, kcontroller, kutils)


def _keypair(sni):
    return b"CERT " + sni.encode(), b"KEY " + sni.encode()


kcontroller.new_keypair = _keypair

INSTANCE = "me"
NS = "ns"
SHORT = {"pods": "pod", "secrets": "secret", "services": "service", "ingressroutes": "route", "ingressroutetcps": "tcproute",
         "endpoints": "endpoints", "daskclusters": "cluster"}
RBAC = {"daskclusters": None, "ingressroutes": {"get", "create", "delete"}, "ingressroutetcps": {"get", "create", "delete"},
        "pods": {"get", "list", "watch", "create", "delete"}, "endpoints": {"get", "list", "watch"},
        "secrets": {"create", "delete"}, "services": {"create", "delete"}}


def state(pod, container):
    """What a pod is: pending / running / done / other (between two starts of its container)."""
    st = pod.get("status") or {}
    phase = st.get("phase")
    if phase == "Pending":
        return "pending"
    if phase in ("Succeeded", "Failed"):
        return "done"
    if phase != "Running":
        return "other"
    for cs in st.get("containerStatuses") or ():
        if cs["name"] == container:
            s = cs["state"]
            if "running" in s:
                return "running"
            if "terminated" in s and (s["terminated"]["exitCode"] == 0 or container == "dask-scheduler"):
                return "done"
    return "other"


def role(o):
    return (o["metadata"].get("labels") or {}).get("app.kubernetes.io/component")


class KubeWorld:
    def __init__(self, cfg):
        self.cfg = cfg
        self.rng = random.Random(cfg["seed"])
        self.s = fakekube.Server(cfg["seed"])
        self.s.policy = self._policy
        self.s.latency = lambda req: self.rng.choice(cfg.get("latency", [0.002]))
        self.s.rec = self._rec
        self.s.done = self.finished
        self.ev = []
        self.cl = {}             # cluster name -> short
        self.uid = {}            # uid -> short object
        self.ids = {}            # (kind, key, uid) -> short pod id
        self.n = 0
        self.inc = 0
        self.ctl = None
        self.plan = []
        self.sick = 0
        self.names = {}
        self.last_chain = {}
        self.flying = {}

    def ms(self):
        return int(round((self.s.now() - 1000) * 1000))

    def log(self, e, **kw):
        self.ev.append(dict(kw, e=e, at=self.ms()))

    # ------------------------------------------------------------- recording
    def cname(self, o):
        return self.cl.get((o["metadata"].get("labels") or {}).get("gateway.dask.org/cluster"), "?")

    def pid(self, o):
        k = o["metadata"]["uid"]
        if k not in self.ids:
            self.ids[k] = "p%d" % (len(self.ids) + 1)
        return self.ids[k]

    def what(self, kind, o):
        """scheduler / worker for pods, the kind for the rest."""
        if kind == "pods":
            return {"dask-scheduler": "sched", "dask-worker": "worker"}.get(role(o), "?")
        return SHORT[kind]

    def view(self, kind, o):
        """An object as the specification sees it."""
        if kind == "pods":
            return state(o, "dask-scheduler" if role(o) == "dask-scheduler" else "dask-worker")
        if kind == "endpoints":
            subs = o.get("subsets") or []
            return "ready" if subs and not any(x.get("notReadyAddresses") for x in subs) else "unready"
        return "there"

    def seen(self, kind, o, typ):
        if kind == "daskclusters":
            n = o["metadata"]["name"]
            if n in self.cl:
                if typ == "DELETED":
                    self.log("seen", k="cluster", c=self.cl[n], active=False, replicas=0, phase="gone")
                else:
                    self.log("seen", k="cluster", c=self.cl[n], active=o["spec"].get("active", True), replicas=o["spec"].get("replicas", 0),
                             phase=(o.get("status") or {}).get("phase", "none"))
            return
        c = self.cname(o)
        k = self.what(kind, o)
        if c != "?" and k in ("sched", "worker", "endpoints"):
            self.log("seenpod" if kind == "pods" else "seenend", k=k, c=c, p=self.pid(o), st="gone" if typ == "DELETED" else self.view(kind, o))

    def _rec(self, e):
        x = e["e"]
        who = e.get("who")
        mine = who == self.who()
        kind = e["kind"]
        if x == "seen" and mine:
            self.seen(kind, e["obj"], e["type"])
        elif x == "listed" and mine:
            self.log("list", k=SHORT[kind], have=[self.pid(o) for o in e["items"]] if kind == "pods" else
                     [self.cl[o["metadata"]["name"]] for o in e["items"] if o["metadata"]["name"] in self.cl] if kind == "daskclusters" else [])
            for o in e["items"]:
                self.seen(kind, o, "ADDED")
        elif x == "call" and mine:
            self.call(e)
        elif x == "served" and mine:
            self.served(e)
        elif x == "change":
            self.change(e)
        elif x == "patch" and mine and kind == "daskclusters":
            n = e["new"]["metadata"]["name"]
            st = e["new"].get("status") or {}
            t = st.get("completionTime")
            self.log("status", c=self.cl.get(n, "?"), old=(e["old"].get("status") or {}).get("phase", "none"), phase=st.get("phase", "none"),
                     only=e["old"]["spec"] == e["new"]["spec"] and
                     all(e["old"]["metadata"].get(x) == e["new"]["metadata"].get(x) for x in ("name", "labels", "uid")),
                     fin=-1 if t is None else self.when(t))

    def when(self, t):
        try:
            return int(kutils.parse_k8s_timestamp(t) - (vloop.EPOCH + 1000) * 1000)
        except Exception:
            return -2

    def call(self, e):
        req = e["req"]
        k = SHORT.get(e["kind"], "?")
        if e["verb"] == "create":
            o = req.body
            c = self.cname(o)
            k = self.what(e["kind"], o)
            self.n += 1
            req.i = "q%d" % self.n
            now = self.s.now()
            key = req.chain = c + ("w" if k == "worker" else "s")
            fresh = not (self.flying.get(key, 0) > 0 or now - self.last_chain.get(key, -1) < 0.01)
            self.flying[key] = self.flying.get(key, 0) + 1
            self.log("create", i=req.i, k=k, c=c, fresh=fresh, ok=self.payload(k, c, o, req.ns))
        elif e["verb"] == "delete":
            self.n += 1
            req.i = "q%d" % self.n
            o = self.s.objs.get((e["kind"], req.ns, req.name))
            name = req.name
            if e["kind"] == "daskclusters":
                self.log("drop", c=self.cl.get(name, "?"))
                return
            k, c, p = self.names.get((e["kind"], name), (k, "?", "?"))
            now = self.s.now()
            key = req.chain = c + ("-w" if k == "worker" else "-s")
            fresh = not (self.flying.get(key, 0) > 0 or now - self.last_chain.get(key, -1) < 0.01)
            self.flying[key] = self.flying.get(key, 0) + 1
            self.log("delete", i=req.i, k=k, c=c, p=p if o is None or e["kind"] != "pods" else self.pid(o), fresh=fresh)

    def served(self, e):
        req = e["req"]
        if e["verb"] == "get" and e["kind"] == "pods" and not e["lost"]:
            if e["status"] == 200:
                self.seen("pods", json.loads(e["body"]), "ADDED")
            elif ("pods", req.name) in self.names:
                k, c, p = self.names["pods", req.name]
                self.log("seenpod", k=k, c=c, p=p, st="gone")
            return
        if not hasattr(req, "i"):
            return
        if e["verb"] == "create" and e["status"] == 201:
            o = json.loads(e["body"])
            self.log("made", i=req.i, k=self.what(e["kind"], o), c=self.cname(o), p=self.pid(o), lost=e["lost"])
        else:
            self.log("answered", i=req.i, status=e["status"], lost=e["lost"])

    def finished(self, req):
        """The client has its answer (or error)."""
        if hasattr(req, "i"):
            self.flying[req.chain] = self.flying.get(req.chain, 1) - 1
            self.last_chain[req.chain] = self.s.now()
            self.log("end", i=req.i)

    def change(self, e):
        kind, o = e["kind"], e["obj"]
        if kind == "daskclusters":
            c = self.cl.get(o["metadata"]["name"], "?")
            if e["type"] == "DELETED":
                self.log("server", k="cluster", c=c, p="", st="gone")
            else:
                self.log("spec", c=c, active=o["spec"].get("active", True), replicas=o["spec"].get("replicas", 0))
            return
        c, k = self.cname(o), self.what(kind, o)
        if kind == "pods" or k in ("secret", "service", "route", "tcproute"):
            self.names[kind, o["metadata"]["name"]] = (k, c, self.pid(o))
        if e["type"] == "DELETED":
            st = "gone"
        elif "deletionTimestamp" in o["metadata"]:
            st = "going"
        else:
            st = self.view(kind, o)
        self.log("server", k=k, c=c, p=self.pid(o), st=st)

    # what the controller must put into the objects it makes
    def payload(self, k, c, o, ns):
        bad = []
        full = next((n for n, x in self.cl.items() if x == c), None)
        if full is None:
            return ["cluster label"]
        m = o["metadata"]
        lab = m.get("labels") or {}
        if ns != NS:
            bad.append("namespace")
        if lab.get("gateway.dask.org/instance") != INSTANCE:
            bad.append("instance label")
        owner = (m.get("ownerReferences") or [{}])[0]
        co = self.s.objs.get(("daskclusters", NS, full))
        sched = self.s.objs.get(("pods", NS, "dask-scheduler-" + full))
        if k in ("sched", "secret"):
            if co is not None and (owner.get("uid") != co["metadata"]["uid"] or owner.get("kind") != "DaskCluster" or owner.get("name") != full):
                bad.append("owner")
        elif sched is not None and (owner.get("uid") != sched["metadata"]["uid"] or owner.get("kind") != "Pod"):
            bad.append("owner")
        if k in ("sched", "worker"):
            conf = self.conf[full]
            cs = o["spec"]["containers"]
            res = cs[0]["resources"]
            p = "scheduler" if k == "sched" else "worker"
            if float(res["requests"]["cpu"]) != conf[p + "_cores"] or float(res["limits"]["cpu"]) != conf[p + "_cores_limit"]:
                bad.append("cores")
            if int(res["requests"]["memory"]) != conf[p + "_memory"] or int(res["limits"]["memory"]) != conf[p + "_memory_limit"]:
                bad.append("memory")
            if cs[0]["image"] != conf["image"]:
                bad.append("image")
            env = {x["name"]: x.get("value") for x in cs[0]["env"]}
            if env.get("DASK_GATEWAY_CLUSTER_NAME") != "%s.%s" % (NS, full) or env.get("USERENV") != conf["environment"].get("USERENV"):
                bad.append("environment")
            if o["spec"]["restartPolicy"] != ("OnFailure" if k == "worker" else "Never"):
                bad.append("restart policy")
            if [v["secret"]["secretName"] for v in o["spec"]["volumes"] if "secret" in v] != ["dask-credentials-" + full]:
                bad.append("credentials volume")
            args = cs[0]["args"]
            if k == "worker" and "tls://dask-%s.%s:8786" % (full, NS) not in args:
                bad.append("scheduler address")
        if k == "secret":
            d = {x: base64.b64decode(y) for x, y in o["data"].items()}
            if d["dask.crt"] != _keypair(full)[0] or d["dask.pem"] != _keypair(full)[1] or len(d["api-token"]) < 16 or d["api-token"] in self.tokens:
                bad.append("credentials")
            self.tokens.add(d["api-token"])
        if k == "service" and o["spec"]["selector"].get("gateway.dask.org/cluster") != full:
            bad.append("service selector")
        if k == "route":
            r = o["spec"]["routes"][0]
            if "`/clusters/%s.%s/`" % (NS, full) not in r["match"] or r["services"][0]["name"] != "dask-" + full or r["services"][0]["port"] != 8787:
                bad.append("route")
        if k == "tcproute":
            r = o["spec"]["routes"][0]
            if r["match"] != "HostSNI(`daskgateway-%s.%s`)" % (NS, full) or r["services"][0]["name"] != "dask-" + full \
                    or r["services"][0]["port"] != 8786 or o["spec"]["tls"] != {"passthrough": True}:
                bad.append("route")
        return bad

    # ------------------------------------------------------------- faults
    def _policy(self, req):
        if req.who != self.who():
            return None
        allowed = RBAC.get(req.kind)
        if req.kind not in RBAC or allowed is not None and req.verb not in allowed:
            return ("status", 403)
        if self.quota is not None and req.verb == "create" and req.kind == "pods" and \
                sum(k[0] == "pods" for k in self.s.objs) >= self.quota:
            return ("status", 403)
        if self.plan:
            verb, act = self.plan[0]
            if verb in ("?", req.verb):
                self.plan.pop(0)
                return act
        if self.sick and self.rng.random() < self.sick:
            return self.fault()
        return None

    quota = None

    def fault(self):
        r = self.rng.random()
        if r < 0.45:
            return ("status", self.rng.choice([400, 403, 409, 429, 500, 503, 504]))
        if r < 0.7:
            return ("before", self.rng.choice([OSError("refused"), aiohttp.ServerDisconnectedError(), asyncio.TimeoutError()]))
        if r < 0.85:
            return ("after", aiohttp.ServerDisconnectedError())
        return ("slow", self.rng.choice([0.05, 0.5, 2]), self.rng.choice([0.001, 0.3]))

    # ------------------------------------------------------------- the controller
    def who(self):
        return "ctl%d" % self.inc

    def config(self):
        cfg = self.cfg
        c = Config()
        k = c.KubeController
        k.gateway_instance = INSTANCE
        k.address = "127.0.0.1:0"
        k.api_url = "http://gateway/api"
        k.parallelism = cfg.get("parallelism", 4)
        k.completed_cluster_cleanup_period = cfg.get("period", 60)
        k.completed_cluster_max_age = cfg.get("age", 600)
        k.backoff_base_delay = 0.1
        k.backoff_max_delay = cfg.get("maxback", 30)
        k.k8s_api_rate_limit = cfg.get("rate", 10 ** 6)
        k.k8s_api_rate_limit_burst = cfg.get("burst", 10 ** 6)
        k.proxy_prefix = cfg.get("prefix", "")
        return c

    async def start(self):
        self.inc += 1
        self.plan.clear()
        self.flying.clear()
        self.log("boot")
        fakekube.connect(self.s, self.who())
        loop = asyncio.get_running_loop()
        loop.add_signal_handler = lambda *a: None
        ctl = kcontroller.KubeController(config=self.config())
        ctl.log.setLevel(100)
        ctl.app = kcontroller.web.Application()
        hooked = fakekube._target[0]
        assert hooked is self.s
        self.booting = asyncio.ensure_future(ctl.setup())
        self.ctl = ctl

    async def stop(self, graceful):
        if graceful and self.booting.done():
            await asyncio.wait_for(self.ctl.cleanup(), 120)
        else:
            self.booting.cancel()
            runner = getattr(self.ctl, "runner", None)
            if runner is not None:
                for site in list(runner.sites):
                    await site.stop()
        self.s.dead.add(self.who())
        for k in list(fakekube.KINDS):
            self.s.hold(k, self.who())
        for w in list(self.s.watches):
            if w.who == self.who():
                w.closed = True
                self.s.watches.remove(w)
        await asyncio.sleep(3)       # what was under way at the server has arrived

    # ------------------------------------------------------------- users and kubelet
    conf = None
    tokens = None

    def new_cluster(self, replicas=None):
        self.conf = self.conf if self.conf is not None else {}
        self.tokens = self.tokens if self.tokens is not None else set()
        rng = self.rng
        full = "%032x" % rng.getrandbits(128)
        c = "c%d" % (len(self.cl) + 1)
        self.cl[full] = c
        conf = kbackend.KubeClusterConfig(namespace=NS, worker_cores=rng.choice([1, 2, 0.5]), worker_memory=rng.choice(["1G", "512M"]),
                                          worker_cores_limit=4, worker_memory_limit="4G", scheduler_cores=rng.choice([1, 0.25]),
                                          scheduler_memory="1G", image="img:%d" % rng.randint(1, 9),
                                          environment={"USERENV": str(rng.randint(1, 99))}).to_dict()
        self.conf[full] = conf
        spec = {"username": "alice", "options": {}, "config": conf}
        if replicas is not None:
            spec["replicas"] = replicas
        self.log("cluster", c=c, replicas=replicas or 0)
        self.s.create("daskclusters", NS, {"metadata": {"name": full, "labels": {
            "gateway.dask.org/instance": INSTANCE, "gateway.dask.org/cluster": full}}, "spec": spec})
        return full

    def scale(self, full, n):
        self.s.modify("daskclusters", NS, full, lambda o: o["spec"].__setitem__("replicas", n))

    def deactivate(self, full):
        self.s.modify("daskclusters", NS, full, lambda o: o["spec"].__setitem__("active", False))

    def pods(self, comp=None):
        return [o for (k, _, _), o in sorted(self.s.objs.items()) if k == "pods" and (comp is None or role(o) == comp)]

    def pod_to(self, o, what, code=0, bare=False):
        """The kubelet (or scheduler) moves a pod on."""
        comp = role(o)

        def fn(o):
            st = o.setdefault("status", {})
            if what == "scheduled":
                o["spec"]["nodeName"] = "n1"
                st["phase"] = "Pending"
                if not bare:
                    st["containerStatuses"] = [{"name": comp, "image": "i", "imageID": "i", "ready": False, "restartCount": 0,
                                                "state": {"waiting": {"reason": "ContainerCreating"}}}]
            elif what == "running":
                o["spec"]["nodeName"] = "n1"
                st["phase"] = "Running"
                st["containerStatuses"] = [{"name": comp, "image": "i", "imageID": "i", "ready": True, "restartCount": 0,
                                            "state": {"running": {"startedAt": fakekube.stamp()}}}]
            elif what == "crash":          # the container will be restarted
                st["phase"] = "Running"
                st["containerStatuses"] = [{"name": comp, "image": "i", "imageID": "i", "ready": False, "restartCount": 1,
                                            "state": {"terminated": {"exitCode": 1}} if code else {"waiting": {"reason": "CrashLoopBackOff"}}}]
            elif what == "exit":
                st["phase"] = "Succeeded" if code == 0 else "Failed"
                st["containerStatuses"] = [{"name": comp, "image": "i", "imageID": "i", "ready": False, "restartCount": 0,
                                            "state": {"terminated": {"exitCode": code}}}]
                if bare:
                    del st["containerStatuses"]
            elif what == "ending":         # the container has ended, the phase follows later
                st["phase"] = "Running"
                st["containerStatuses"] = [{"name": comp, "image": "i", "imageID": "i", "ready": False, "restartCount": 0,
                                            "state": {"terminated": {"exitCode": code}}}]
            elif what == "evict":
                st["phase"] = "Failed"
                st["reason"] = "Evicted"
                if bare:
                    st.pop("containerStatuses", None)
                else:
                    st["containerStatuses"] = [{"name": comp, "image": "i", "imageID": "i", "ready": False, "restartCount": 0,
                                                "state": {"terminated": {"exitCode": 137}}}]
        m = o["metadata"]
        self.s.modify("pods", m["namespace"], m["name"], fn)

    def endpoints(self, full, ready):
        """The endpoints controller follows services."""
        svc = self.s.objs.get(("services", NS, "dask-" + full))
        key = ("endpoints", NS, "dask-" + full)
        if svc is None:
            if key in self.s.objs:
                self.s.remove(*key)
            return
        pod = self.s.objs.get(("pods", NS, "dask-scheduler-" + full))
        up = pod is not None and state(pod, "dask-scheduler") == "running"
        subs = None if not up else [{"addresses": [{"ip": "1.1.1.1"}]}] if ready else [{"notReadyAddresses": [{"ip": "1.1.1.1"}]}]

        def fn(o):
            if subs is None:
                o.pop("subsets", None)
            else:
                o["subsets"] = subs
        if key not in self.s.objs:
            o = {"metadata": {"name": "dask-" + full, "labels": dict(svc["metadata"]["labels"])}}
            fn(o)
            self.s.create("endpoints", NS, o)
        else:
            self.s.modify(*key, fn)
