"""C29: the YARN backend acts on exactly its own applications and containers (spec/Yarn.tla)."""
import asyncio
import json
import os
import random
import shlex
import string
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import fakeskein, par, report, tlc, vloop  # noqa: E402

SKEIN = fakeskein.install(None)
from dask_gateway_server import app as _app  # noqa: E402
from dask_gateway_server.backends import db_base, yarn  # noqa: E402
from dask_gateway_server.utils import FrozenAttrDict  # noqa: E402
from traitlets.config import Config  # noqa: E402


class Loop(vloop.VirtualLoop):
    """Work given to threads takes its time, and goes on when nobody waits for it any more."""
    delay = None

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()

        async def work():
            before, after = self.delay()
            await asyncio.sleep(before)
            try:
                out, exc = func(*args), None
            except Exception as e:
                out, exc = None, e
            await asyncio.sleep(after)
            if not fut.done():
                fut.set_exception(exc) if exc else fut.set_result(out)
        self.create_task(work())
        return fut


class Obj:
    def __init__(self, n, name, cluster=None):
        self.n, self.name, self.cluster, self.state, self.up, self.view, self.faulty = n, name, cluster, {}, False, None, False

    @property
    def owner(self):
        return self.cluster or self


class Run:
    def __init__(self, cfg):
        self.cfg, self.rng = cfg, random.Random(cfg["seed"])
        self.ev, self.objs, self.ids, self.op = [], [], 0, {}
        self.trouble, self.touched = {}, set()

    def log(self, e, **kw):
        self.ev.append(dict(e=e, **kw))
        self.touched.add(kw.get("o"))

    # ------------------------------------------------------------ what the resource manager sees
    def newid(self):
        self.ids += 1
        return self.ids

    def submit(self, spec):
        n = self.newid()
        id = "application_1526134340424_%04d" % n
        a = self.mgr.apps[id] = fakeskein.App(self.mgr, id, spec, n)
        # what is uploaded is read now
        a.files = {}
        for part in [spec.master] + list(spec.services.values()):
            for k, v in part.files.items():
                a.files.setdefault(id_of(part), {})[k] = read(v)
        return id

    def fault(self, name, app):
        f = self.trouble.get((name, app)) or self.trouble.get((name, None))
        if f and f[0] > 0:
            f[0] -= 1
            exc = f[2]
            return f[1], exc
        return None

    def hook(self, name, app, kw, out, exc):
        a = self.mgr.apps.get(app)
        if exc is not None and not isinstance(exc, ValueError):       # what asks for the same application may suffer from it, too
            for o in self.objs:
                if app is not None and o.owner.state.get("app_id") == app:
                    o.faulty = True
        if name == "submit":
            o = next((o for o in self.objs if not o.cluster and o.name == kw["spec"].master.env.get("DASK_GATEWAY_CLUSTER_NAME")), None)
            n, wrong, asked = 0, [], {"cores": -1, "mem": -1}
            if o and out is not None:
                n = self.mgr.apps[out].n
                wrong = self.wrong(o, self.mgr.apps[out])
                m, w = kw["spec"].master.resources, kw["spec"].services.get("dask.worker")
                asked = {"cores": m.vcores, "mem": m.kib()}
                self.log("shape", o=o.n, cores=w.resources.vcores if w else -1, mem=w.resources.kib() if w else -1)
            self.log("submit", o=o.n if o else 0, id=n, wrong=wrong, asked=asked)
            if o and exc is not None:
                o.faulty = True
        elif name == "kill":
            self.touched |= {o.n for o in self.objs if not o.cluster and o.state.get("app_id") == app}
            self.log("kill", app=a.n if a else 0, ok=exc is None)
        elif name == "add":
            o = next((o for o in self.objs if o.cluster and o.name == kw["env"].get("DASK_GATEWAY_WORKER_NAME")), None)
            wrong = []
            if o and out is not None:
                wrong = self.wrong_worker(o, a, kw)
            self.log("add", o=o.n if o else 0, app=a.n if a else 0, id=out.n if out is not None else 0, wrong=wrong)
            if o and exc is not None:
                o.faulty = True
        elif name == "killc":
            c = a.containers.get(kw["container"]) if a else None
            self.touched |= {o.n for o in self.objs if o.cluster and o.state.get("container_id") == kw["container"]}
            self.log("killc", app=a.n if a else 0, id=c.n if c else 0, ok=exc is None or isinstance(exc, ValueError))
        elif name == "badcreds":
            self.log("badcreds", app=a.n)
        elif exc is not None:
            self.mute.add(app)

    def expand(self, text, env):
        return string.Template(text).safe_substitute(env)

    def wrong(self, o, a):
        """What is wrong with this submission, as that of a cluster."""
        bad, spec, conf = [], a.spec, self.conf(o)
        need = {"DASK_GATEWAY_API_URL": self.url, "DASK_GATEWAY_API_TOKEN": o.token, "DASK_GATEWAY_CLUSTER_NAME": o.name}
        if spec.user != o.user:
            bad.append("user")
        if spec.queue != conf.queue:
            bad.append("queue")
        if set(spec.services) != {"dask.worker"}:
            bad.append("services")
        if spec.max_attempts != 1:
            bad.append("attempts")
        for kind, part, cmd, setup in [("SCHEDULER", spec.master, conf.scheduler_cmd, conf.scheduler_setup)] + \
                [("WORKER", p, conf.worker_cmd, conf.worker_setup) for p in spec.services.values()]:
            env, files = part.env, a.files.get(id_of(part), {})
            who = kind.lower()
            if any(env.get(k) != v for k, v in need.items()) or any(env.get(k) != v for k, v in conf.environment.items() if k not in need):
                bad.append(who + " environment")
            tls = "DASK_DISTRIBUTED__COMM__TLS__"
            if files.get(env.get(tls + "CA_FILE")) != o.cert or files.get(env.get(tls + kind + "__CERT")) != o.cert or files.get(env.get(tls + kind + "__KEY")) != o.key:
                bad.append(who + " credentials")
            if env.get("DASK_DISTRIBUTED__COMM__REQUIRE_ENCRYPTION") != "True":
                bad.append(who + " encryption")
            for k, v in conf.localize_files.items():
                if k not in ("dask.crt", "dask.pem") and files.get(k) != (v["source"] if isinstance(v, dict) else v):
                    bad.append(who + " files")
            script = part.script
            if setup and not script.startswith(setup):
                bad.append(who + " setup")
            last = script[len(setup):].strip()
            if shlex.split(last)[:len(cmd)] != list(cmd):
                bad.append(who + " command")
        for p in spec.services.values():
            if p.instances != 0 or p.max_restarts != 0 or p.allow_failures is not True:
                bad.append("worker service")
        if spec.master.security.contents() != (o.cert, o.key):
            bad.append("security")
        return sorted(set(bad))

    def wrong_worker(self, o, a, kw):
        """What is wrong with a container that is to be this worker's: the command it will run."""
        bad, p, conf = [], a.spec.services.get(kw["service"]), self.conf(o)
        if p is None:
            return ["service"]
        cores, mib = p.resources.vcores, -(-p.resources.kib() // 1024)
        env = dict(p.env, **kw["env"])
        env.update(SKEIN_RESOURCE_VCORES=str(cores), SKEIN_RESOURCE_MEMORY=str(mib))
        if any(env.get(k) != v for k, v in p.env.items()):
            bad.append("environment")
        line = shlex.split(self.expand(p.script[len(conf.worker_setup):].strip(), env))
        rest = line[len(conf.worker_cmd):]
        opts = {rest[i]: rest[i + 1] for i in range(len(rest) - 1) if rest[i].startswith("--")}
        if o.owner.address not in rest[:1]:
            bad.append("scheduler address")
        if opts.get("--name") != o.name:
            bad.append("name")
        if opts.get("--nthreads") not in (str(cores), str(conf.worker_threads)):
            bad.append("threads")
        limit = opts.get("--memory-limit", "x")
        if limit.rstrip("MiB").isdigit() is False or not (conf.worker_memory <= (int(limit[:-3]) << 20 if limit.endswith("MiB") else int(limit)) <= mib << 20):
            bad.append("memory")
        return bad

    # ------------------------------------------------------------ the engine's part
    async def make(self):
        if getattr(self, "backend", None) is not None and self.rng.random() < 0.5:
            await self.backend.do_cleanup()
            if not self.backend.skein_client.closed:
                self.log("odd", what="its connection is left open")
        c = Config()
        c.DaskGateway.backend_class = yarn.YarnBackend
        c.Proxy.externally_managed = True
        c.DaskGateway.address = "127.0.0.1:65535"
        c.DaskGateway.config_file = "/nonexistent/none.py"
        c.DBBackendBase.db_url = "sqlite://"
        self.url = "http://gw.example:%d/api" % self.cfg["port"]
        c.YarnBackend.api_url = self.url
        c.YarnBackend.app_client_cache_max_size = self.cfg["cache"]
        if self.cfg["kerberos"]:
            c.YarnBackend.principal, c.YarnBackend.keytab = "gw@EX", "/etc/gw.keytab"
        err, sys.stderr = sys.stderr, open(os.devnull, "w")
        try:
            gw = _app.DaskGateway(config=c)
            gw.initialize([])
        finally:
            sys.stderr.close()
            sys.stderr = err
        gw.backend.log.setLevel(100)
        await gw.backend.do_setup()
        self.backend = gw.backend
        cl = self.mgr.clients[-1]
        if (cl.principal, cl.keytab) != (("gw@EX", "/etc/gw.keytab") if self.cfg["kerberos"] else (None, None)):
            self.log("odd", what="it connects as somebody else")
        for o in self.objs:
            o.view = None
        for o in self.objs:
            self.see(o)

    def see(self, o):
        """The engine's object, as of this gateway; every worker has its cluster's."""
        if o.view is None:
            st = json.loads(json.dumps(o.state))
            if not o.cluster:
                o.view = db_base.Cluster(id=o.n, name=o.name, username=o.user, token=o.token, options={}, config=self.conf(o), status=db_base.JobStatus.SUBMITTED,
                                         target=db_base.JobStatus.RUNNING, state=st, scheduler_address="", tls_cert=o.cert, tls_key=o.key, start_time=1)
            else:
                o.view = db_base.Worker(id=o.n, name=o.name, cluster=self.see(o.cluster), status=db_base.JobStatus.SUBMITTED, target=db_base.JobStatus.RUNNING, state=st, start_time=1)
        if not o.cluster:
            o.view.scheduler_address = o.address if o.hasrun else ""
        return o.view

    def options(self):
        rng = self.rng
        mem = lambda: rng.choice([rng.randrange(300 << 20, 3000 << 20), 1 << rng.randrange(28, 40), (1 << 30) - 1, 1 << 30, "%dG" % rng.randrange(1, 40)])  # noqa: E731
        d = {"worker_cores": rng.choice([1, 1, 2, 7, 48]), "scheduler_cores": rng.choice([1, 1, 2, 5]), "worker_memory": mem(), "scheduler_memory": mem(),
             "environment": rng.choice([{}, {"A": "b"}, {"PATH_X": "/a:/b c", "DASK_GATEWAY_API_TOKEN": "mine", "Q": "it's \"q\""}])}
        if rng.random() < 0.3:
            d["worker_threads"] = rng.choice([1, 3])
        if rng.random() < 0.4:
            d["worker_cmd"], d["scheduler_cmd"] = ["/opt/env/bin/dask-worker", "--x"], "my-scheduler"
        if rng.random() < 0.5:
            d["worker_setup"], d["scheduler_setup"] = rng.choice([("source env/bin/activate", "module load x"), ("echo a\nexport Z=1", "# only this")])
        if rng.random() < 0.5:
            d["queue"] = "queue%d" % rng.randrange(100)
        if rng.random() < 0.5:
            d["localize_files"] = rng.choice([{"environment": {"source": "hdfs:///env.tar.gz", "visibility": "public"}}, {"a.txt": "/data/a.txt", "dask.pem": "/data/other.pem"},
                                              {"dask.crt": {"source": "hdfs:///x.crt"}, "b": {"source": "/b"}}])
        return d

    def conf(self, o):
        c = o.owner
        if not hasattr(c, "frozen"):
            c.frozen = FrozenAttrDict(json.loads(json.dumps(self.backend.cluster_config_class(parent=self.backend, **c.conf).to_dict())))
        return c.frozen

    def app(self, o):
        return self.mgr.apps.get(o.owner.state.get("app_id"))

    def error(self):
        return self.rng.choice([fakeskein.SkeinConnectionError("Unable to connect"), fakeskein.SkeinError("RPC failed"), ConnectionResetError(104, "reset")])

    async def start(self, o):
        rng = self.rng
        o.faulty = False
        v = self.see(o)
        names = ("submit",) if not o.cluster else ("add", "report")
        key = None
        if rng.random() < self.cfg["faults"]:
            name = rng.choice(names)
            key = (name, None if not o.cluster else o.owner.state.get("app_id"))
            self.trouble[key] = [1, rng.choice(["before", "before", "after"]) if name != "report" else "before", self.error()]
        self.log("start", o=o.n)
        limit = rng.choice([0.02, 0.3]) if rng.random() < self.cfg["aborts"] else 600

        async def go():
            async for state in (self.backend.do_start_worker(v) if o.cluster else self.backend.do_start_cluster(v)):
                o.state = json.loads(json.dumps(state))
                self.see(o).state = state
                self.touched.add(o.n)
        t = asyncio.ensure_future(go())
        await asyncio.wait([t], timeout=limit)
        if not t.done():
            t.cancel()
            await asyncio.wait([t])
            self.log("abort", o=o.n)
            await asyncio.sleep(3)
        elif t.exception():
            a = self.app(o)
            fault = o.faulty or (o.cluster is not None and (a is None or a.state != "RUNNING" or o.owner.stopped))
            self.log("failed", o=o.n, fault=fault, why=repr(t.exception())[:300])
        else:
            a = self.app(o)
            num = -1
            if o.cluster is None:
                num = a.n if a else -1
            elif a:
                c = a.containers.get(o.state.get("container_id"))
                num = c.n if c else -1
            self.log("started", o=o.n, id=num)
            o.up = True
        if key:
            self.trouble.pop(key, None)

    async def stop(self, o):
        rng = self.rng
        if not o.cluster:
            o.stopped, o.running = True, False
        for again in range(rng.choice([1, 1, 1, 2])):
            key = None
            if rng.random() < self.cfg["faults"]:
                key = (rng.choice(["killc", "report"]) if o.cluster else "kill", o.owner.state.get("app_id"))
                self.trouble[key] = [1, "before", self.error()]
            a = self.app(o)
            before = a is not None and a.state == "RUNNING" and not o.owner.stopped
            self.log("stop", o=o.n)
            v = self.see(o)
            o.up = o.faulty = False
            t = asyncio.ensure_future(self.backend.do_stop_worker(v) if o.cluster else self.backend.do_stop_cluster(v))
            if rng.random() < 0.1 and o.state:
                await asyncio.wait([t], timeout=0.01)
                if not t.done():          # the gateway crashes, and stops it again later
                    t.cancel()
                    await asyncio.wait([t])
                    self.log("stop", o=o.n)
                    t = asyncio.ensure_future(self.backend.do_stop_worker(v) if o.cluster else self.backend.do_stop_cluster(v))
            await asyncio.wait([t])
            c = a.containers.get(o.state.get("container_id")) if a and o.cluster else None
            alive = (a is not None and a.state not in fakeskein.OVER) if not o.cluster else (c is not None and c.state in ("REQUESTED", "RUNNING"))
            after = a is not None and a.state == "RUNNING" and not o.owner.stopped
            self.log("stopped", o=o.n, raised=t.exception() is not None, fault=o.faulty or (o.cluster is not None and not (before and after)), alive=alive, why=repr(t.exception())[:300])
            if key:
                self.trouble.pop(key, None)
            if rng.random() < 0.2:
                await asyncio.sleep(1)

    async def worker(self, o):
        rng = self.rng
        await asyncio.sleep(rng.choice([0, 0, 0.1, 2]))
        await self.start(o)
        await asyncio.sleep(rng.choice([0, 1, 4, 10]))
        if rng.random() < 0.75:
            await self.stop(o)

    async def cluster(self, o):
        rng = self.rng
        await asyncio.sleep(rng.choice([0, 0, 1, 5]))
        await self.start(o)
        o.began = True
        if o.up:
            for _ in range(rng.choice([0, 1, 20, 20, 20, 20, 20])):       # it may be stopped before it runs
                if self.app(o).state not in ("NEW", "NEW_SAVING", "SUBMITTED", "ACCEPTED"):
                    break
                await asyncio.sleep(rng.choice([0.2, 1]))
            if self.app(o).state == "RUNNING":
                o.running = o.hasrun = True
                self.see(o)
                ws = [asyncio.ensure_future(self.worker(w)) for w in self.objs if w.cluster is o]
                if ws:
                    # the cluster may be stopped while its workers are still being started or stopped
                    await asyncio.wait(ws, timeout=rng.choice([1, 600, 600, 600]))
                await asyncio.sleep(rng.choice([0, 1, 5]))
                await self.stop(o)
                for w in ws:
                    await w
                return
        await self.stop(o)

    async def check(self):
        rng = self.rng
        cs = [o for o in self.objs if not o.cluster and o.began and not o.stopped and rng.random() < 0.8]
        if rng.random() < 0.5:
            rng.shuffle(cs)
        key = None
        if cs and rng.random() < self.cfg["faults"]:
            key = ("report", rng.choice(cs).state.get("app_id"))
            self.trouble[key] = [3, "before", self.error()]
        self.mute, self.touched = set(), set()
        got = await self.asked(self.backend.do_check_clusters([self.see(o) for o in cs]))
        # of what changed while it was checked either may be said
        ans = [3 if o.n in self.touched else self.truth(o) if o.state.get("app_id") not in self.mute else 2 if self.truth(o) else 3 for o in cs]
        self.log("checkc", os=[o.n for o in cs], answers=ans, got=got)
        if key:
            self.trouble.pop(key, None)

    def truth(self, o):
        a = self.app(o)
        return 0 if not o.owner.state.get("app_id") or a is None or a.state in fakeskein.OVER else 1

    async def asked(self, coro):
        t = asyncio.ensure_future(coro)
        await asyncio.wait([t])
        if t.exception():
            return []
        try:
            return [int(bool(x)) for x in t.result()]
        except TypeError:
            return [-1]

    async def checkw(self):
        rng = self.rng
        ws = [o for o in self.objs if o.cluster and o.owner.running and (o.up or rng.random() < 0.1) and rng.random() < 0.9]
        if not ws:
            return
        if rng.random() < 0.5:
            rng.shuffle(ws)
        key = None
        if rng.random() < self.cfg["faults"]:
            key = (rng.choice(["containers", "report"]), rng.choice(ws).owner.state.get("app_id"))
            self.trouble[key] = [3, "before", self.error()]
        self.mute, self.touched = set(), set()
        before = {o.owner.n for o in ws if self.silent(o)}
        got = await self.asked(self.backend.do_check_workers([self.see(o) for o in ws]))
        mute = before | {o.owner.n for o in ws if self.silent(o) or self.app(o).id in self.mute}
        ans = [2 if o.owner.n in mute else 3 if o.n in self.touched or o.owner.n in self.touched else self.working(o) for o in ws]
        self.log("checkw", os=[o.n for o in ws], answers=ans, got=got)
        if key:
            self.trouble.pop(key, None)

    def silent(self, o):
        a = self.app(o)
        return a is None or a.state != "RUNNING" or o.owner.stopped

    def working(self, o):
        a = self.app(o)
        c = a and a.containers.get(o.state.get("container_id"))
        return int(c is not None and c.state in ("WAITING", "REQUESTED", "RUNNING"))

    async def life(self):
        """Applications and containers come up and end, and the gateway checks and restarts."""
        rng = self.rng
        while True:
            await asyncio.sleep(rng.choice([0.05, 0.3, 1]))
            for a in list(self.mgr.apps.values()):
                x = rng.random()
                if a.state == "SUBMITTED":
                    a.state = "ACCEPTED" if x < 0.4 else "SUBMITTED"
                elif a.state == "ACCEPTED":
                    a.state = "RUNNING" if x < 0.5 else "ACCEPTED"
                    if x > 1 - 0.3 * self.cfg["deaths"]:
                        a.end("FAILED")
                elif a.state == "RUNNING":
                    if x < 0.04 * self.cfg["deaths"]:
                        a.end(rng.choice(["FAILED", "KILLED", "FINISHED"]))
                    for c in a.containers.values():
                        y = rng.random()
                        if c.state == "REQUESTED" and y < 0.4:
                            c.state = fakeskein.State("RUNNING")
                        elif c.state in ("REQUESTED", "RUNNING") and y > 1 - 0.1 * self.cfg["deaths"]:
                            c.state = fakeskein.State(rng.choice(["FAILED", "SUCCEEDED", "KILLED"]))
            x = rng.random()
            if x < 0.25:
                await self.check()
            elif x < 0.6:
                await self.checkw()
            elif x < 0.6 + 0.03 and not any(t for t in self.trouble.values()) and self.cfg["restart"]:
                await self.make()

    async def go(self):
        rng = self.rng
        asyncio.get_running_loop().delay = lambda: (rng.choice([0, 0.01, 0.2]), rng.choice([0, 0.01, 0.2]))
        self.mgr = fakeskein.Manager(self.hook, self.fault, self.newid, self.cfg["strict"])
        self.mgr.submit = self.submit
        mod = fakeskein.install(self.mgr)
        yarn.skein = mod
        self.mute = set()
        await self.make()
        for i in range(self.cfg["clusters"]):
            c = Obj(len(self.objs) + 1, "%032x" % rng.getrandbits(128))
            c.user, c.token, c.conf = rng.choice(["alice", "bob", "al.ice"]), "%032x" % rng.getrandbits(128), self.options()
            c.cert, c.key = b"CERT %d" % rng.getrandbits(60), b"KEY %d" % rng.getrandbits(60)
            c.address, c.running, c.hasrun, c.stopped, c.began = "tls://10.0.0.%d:%d" % (i, rng.randrange(10000, 60000)), False, False, False, False
            self.objs.append(c)
            for _ in range(rng.randrange(self.cfg["workers"] + 1)):
                self.objs.append(Obj(len(self.objs) + 1, "%032x" % rng.getrandbits(128), c))
        life = asyncio.ensure_future(self.life())
        await asyncio.gather(*[self.cluster(o) for o in self.objs if not o.cluster])
        if life.done():
            life.result()
        life.cancel()
        await asyncio.wait([life])
        await asyncio.sleep(5)
        kib = lambda n: -(-n // 1024)  # noqa: E731
        return {"events": self.ev, "objs": [
            {"owner": o.cluster.n if o.cluster else 0, "cores": self.conf(o).scheduler_cores, "mem": kib(self.conf(o).scheduler_memory),
             "wcores": self.conf(o).worker_cores, "wmem": kib(self.conf(o).worker_memory)} for o in self.objs]}


def id_of(part):
    return id(part)


def read(f):
    """What a file is uploaded as: the contents of those that are there, the names of others."""
    src = getattr(f, "source", f)
    src = src[7:] if src.startswith("file://") else src
    if os.path.exists(src):
        with open(src, "rb") as fil:
            return fil.read()
    return src


def case(seed):
    rng = random.Random(seed)
    return {"seed": seed, "clusters": rng.choice([1, 2, 3, 4]), "workers": rng.choice([0, 2, 4]), "faults": rng.choice([0, 0, 0.2, 0.4]), "aborts": rng.choice([0, 0, 0.2]),
            "deaths": rng.choice([0, 0.5, 1]), "port": rng.randrange(1000, 9999), "cache": rng.choice([1, 2, 10]), "kerberos": rng.random() < 0.5, "restart": rng.random() < 0.4, "strict": rng.random() < 0.5}


def one(cfg):
    random.seed(cfg["seed"])
    real, vloop.VirtualLoop = vloop.VirtualLoop, Loop
    try:
        return vloop.run(Run(cfg).go)
    finally:
        vloop.VirtualLoop = real


def run(c):
    big = c.thorough
    if not os.environ.get("NOMODEL"):
        c.model(tlc.model_check("YarnMC", "YarnMC.cfg"), "Yarn")
        if big:
            c.model(tlc.model_check("YarnMC", "YarnOne.cfg"), "Yarn(one cluster)")
            c.model(tlc.model_check("YarnMC", "YarnBig.cfg", timeout=1500), "Yarn(more workers)")
    n = int(os.environ.get("N", 0)) or (10000 if big else 800)
    cases = [case(c.seed * 1000000 + i) for i in range(n)]
    traces = par.pmap(one, cases, chunk=4)
    kinds = {}
    for tr in traces:
        for e in tr["events"]:
            kinds[e["e"]] = kinds.get(e["e"], 0) + 1
    c.note(events=kinds)
    c.sample({"case": cases[0], "events": traces[0]["events"][:6]})
    v = tlc.validate_parallel("YarnTrace", "YarnTrace.cfg", traces)
    c.traces_ok(len(v["verdicts"]), v["states"], v["distinct"])
    for cs, tr, r in zip(cases, traces, v["verdicts"]):
        why = [w if isinstance(w, dict) else {"what": w, "at": 0} for w in r["why"]]
        if why:
            f = min(why, key=lambda w: w["at"])
            c.violation(f["what"], {"case": cs, "at": f["at"], "all": why, "trace": tr})


if __name__ == "__main__":
    report.main(run)
