"""C24: what a scheduler reports and how it follows commands (spec/Sched.tla)."""
import asyncio
import json
import os
import random
import sys
import tempfile
import types

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import par, report, tlc, vloop  # noqa: E402
from tornado import httputil, web  # noqa: E402
from tornado.httpclient import HTTPClientError  # noqa: E402
from tornado.ioloop import IOLoop  # noqa: E402
from dask_gateway import scheduler_preload as pre  # noqa: E402

pre.logger.setLevel(100)
import logging  # noqa: E402

for _n in ("tornado.access", "tornado.application", "tornado.general"):
    logging.getLogger(_n).setLevel(100)
TOKEN, NAME, API = "s3cret", "ns.cluster-1", "http://gw:1234/api"


class Conn:
    """Stands in for the connection of a request to the scheduler's API."""

    def __init__(self):
        self.code = None
        self.done = asyncio.get_running_loop().create_future()

    def set_close_callback(self, cb):
        pass

    def write_headers(self, start, headers, chunk=None):
        self.code = start.code
        f = asyncio.get_running_loop().create_future()
        f.set_result(None)
        return f

    write = write_headers

    def finish(self):
        if not self.done.done():
            self.done.set_result(None)


class Ctx:
    remote_ip, protocol, address_family = "127.0.0.1", "http", None


class FakeSock:
    def getsockname(self):
        return ("0.0.0.0", 7777)


class FakeServer:
    _sockets = {0: FakeSock()}

    def stop(self):
        pass


class WS:
    def __init__(self, name, address, long):
        self.name, self.address, self.long_running, self.processing = name, address, {1} if long else set(), {}


class Scheduler:
    """What the service uses of a distributed.Scheduler."""

    def __init__(self, run):
        self.run = run
        self.loop = IOLoop.current()
        self.address = "tls://10.1.2.3:8786"
        self.services = {"dashboard": types.SimpleNamespace(port=8787)} if run.cfg["dash"] else {}
        self.workers, self.plugins = {}, []
        self.transition_log = []
        self.unrunnable, self.queued = {}, set()
        self.time_started = self.loop.time()
        self.tasks = {}

    def add_plugin(self, plugin, **kw):
        self.plugins.append(plugin)

    def join(self, name, long=False):
        r = self.run
        r.na += 1
        ws = WS(name, "tls://10.0.0.%d:1" % r.na, long)
        self.workers[ws.address] = ws
        r.log("join", n=name, long=long)
        for p in self.plugins:
            p.add_worker(self, ws.address)

    def leave(self, address):
        ws = self.workers.pop(address)
        self.run.log("leave", n=ws.name)
        for p in self.plugins:
            p.remove_worker(self, ws.address, stimulus_id="x")
        if ws.processing:
            self.unrunnable.update(ws.processing)
            self.run.act()

    def workers_to_close(self, memory_ratio=None, n=None, key=None, minimum=None, target=None, attribute="address"):
        if target is not None and n is None:
            n = len(self.workers) - target
        if n is None:
            n = 0
        ok = sorted((w for w in self.workers.values() if not w.long_running), key=lambda w: (len(w.processing), w.address))
        if self.run.cfg["fickle"]:
            self.run.rng.shuffle(ok)
        return [getattr(w, attribute) for w in ok[:max(0, n)]]

    async def retire_workers(self, workers=None, *, names=None, close_workers=False, remove=True, stimulus_id=None, **kw):
        r = self.run
        got = [w for w in self.workers.values() if (names is not None and w.name in names) or (workers is not None and w.address in workers)]
        if not got:
            return {}
        r.log("retire", names=sorted(w.name for w in got), whole=bool(close_workers and remove))
        mode, delay = r.retire()
        await r.pause(delay)
        if mode == "fail":
            r.log("retired", ok=False)
            raise RuntimeError("cannot retire")
        for w in got:
            if mode == "some" and r.rng.random() < 0.5:
                continue
            if remove and close_workers and w.address in self.workers:
                self.leave(w.address)
                await r.pause(0)
        r.log("retired", ok=True)
        return {}

    def adaptive_target(self, target_duration=None):
        r = self.run
        if r.rng.random() < r.cfg["confused"]:
            r.log("odd")
            raise ZeroDivisionError("confused scheduler")
        r.log("eval", v=r.want)
        r.plan_at_eval()
        return r.want


class Run:
    def __init__(self, cfg):
        self.cfg, self.rng = cfg, random.Random(cfg["seed"])
        self.ev, self.na, self.nw, self.np, self.nc = [], 0, 0, 0, 0
        self.want, self.tasks, self.calm = 0, set(), False
        self.mode, self.hot = "up", False

    def ms(self):
        return int((asyncio.get_running_loop().time() - 1000) * 1000 + 0.5)

    def log(self, e, **kw):
        self.ev.append(dict(kw, e=e, at=self.ms()))

    async def pause(self, d):
        if d <= 0:
            for _ in range(self.rng.randint(0, 4)):
                await asyncio.sleep(0)
        else:
            await asyncio.sleep(d)

    def spawn(self, coro):
        t = asyncio.ensure_future(coro)
        self.tasks.add(t)
        t.add_done_callback(self.tasks.discard)
        return t

    def retire(self):
        if self.calm:
            return "all", 0
        r = self.rng.random()
        return ("fail" if r < self.cfg["noretire"] else "some" if r < 2 * self.cfg["noretire"] else "all"), self.rng.choice(self.cfg["retire"])

    # ------------------------------------------------------------- the gateway
    async def fetch(self, req, raise_error=True, **kw):
        if isinstance(req, str):
            raise AssertionError("plain url")
        rng = self.rng
        right = req.headers.get("Authorization") == "token " + TOKEN
        base = "%s/v1/clusters/%s" % (API, NAME)
        if req.method == "DELETE":
            self.log("down", good=right and req.url == base)
            what = "down"
        else:
            what = "post"
            self.np += 1
            n = self.np
            m, good = {}, right and req.method == "POST" and req.url == base + "/heartbeat"
            good = good and {k.lower(): v for k, v in req.headers.items()}.get("content-type", "").startswith("application/json")
            try:
                m = json.loads(req.body)
                good = good and m["scheduler_address"] == self.s.address and m["api_address"] == "http://10.1.2.3:7777"
                good = good and m["dashboard_address"] == ("http://10.1.2.3:8787" if self.cfg["dash"] else "")
            except (ValueError, KeyError):
                good = False
            self.log("post", id=n, good=good, count=m.get("count", -1), active=m.get("active_workers", []),
                     closing=m.get("closing_workers", []), closed=m.get("closed_workers", []))
            if rng.random() < self.cfg["hooks"]:
                for _ in range(rng.randint(1, 2)):
                    self.spawn(self.later(rng.choice([0, 0, 0.001, 0.01])))
        fate, delay = self.fate()
        await self.pause(delay)
        ok = fate == "ok"
        if what == "post":
            self.log("ans", id=n, ok=ok)
        else:
            self.log("downed", ok=ok)
        if ok:
            return types.SimpleNamespace(code=200, body=b"")
        if fate == "http":
            raise HTTPClientError(rng.choice([401, 404, 500, 502, 599]), "no")
        raise rng.choice([ConnectionRefusedError("refused"), OSError("x"), asyncio.TimeoutError()])

    def fate(self):
        if self.calm:
            return "ok", 0.001
        if self.mode == "down" or self.rng.random() < self.cfg["fail"]:
            return self.rng.choice(["http", "refused"]), self.rng.choice([0, 0.001, 0.001, 0.3, 20])
        return "ok", self.rng.choice(self.cfg["latency"])

    async def later(self, d):
        await self.pause(d)
        self.step(self.rng.choice(["cmd", "cmd", "join", "leave", "want"]))

    def plan_at_eval(self):
        if self.hot and self.rng.random() < self.cfg["hooks"]:
            self.spawn(self.later(0))

    # ------------------------------------------------------------- commands
    def command(self, op=None, right=True):
        rng = self.rng
        op = op or rng.choice(["scale", "scale", "adapt", "adapt", "stop"])
        n = rng.choice([0, 1, 2, 3, 5, 8])
        if op == "scale":
            body, rec = {"op": "scale", "count": n}, dict(op="scale", n=n)
        elif op == "adapt":
            lo = rng.choice([-1, 0, 1, 2, 4])
            hi = rng.choice([-1] + [x for x in (1, 2, 4, 6, 9) if x >= lo])
            body = {"op": "adapt", "minimum": None if lo < 0 else lo, "maximum": None if hi < 0 else hi, "active": True}
            if rng.random() < 0.3:
                del body["active"]
            rec = dict(op="adapt", active=True, mn=lo, mx=hi)
        elif op == "stop":
            body, rec = {"op": "adapt", "minimum": None, "maximum": None, "active": False}, dict(op="adapt", active=False, mn=-1, mx=-1)
        else:
            body, rec = rng.choice([{"op": "explode"}, {}, {"op": None, "count": 3}, {"count": 3}]), dict(op="none")
        auth = "token " + TOKEN if right else rng.choice(
            [None, "", "token", "token ", "token x", "token " + TOKEN + "x", "token  " + TOKEN, "token " + TOKEN[:-1], "token " + TOKEN.upper(),
             "Bearer " + TOKEN, "Basic " + TOKEN, TOKEN, "token token " + TOKEN, "token None", "token null"])
        self.spawn(self.call(body, rec, auth, right))

    async def call(self, body, rec, auth, right):
        self.nc += 1
        i = self.nc
        h = httputil.HTTPHeaders({"Content-Type": "application/json", "Host": "x"})
        if auth is not None:
            h["Authorization"] = auth
        conn = Conn()
        req = httputil.HTTPServerRequest(
            start_line=httputil.RequestStartLine("POST", "/api/comm", "HTTP/1.1"), headers=h, body=json.dumps(body).encode(), connection=conn)
        req.connection.context = Ctx()
        self.log("cmd", id=i, right=right and rec["op"] != "none", **dict({"n": -1, "mn": -1, "mx": -1, "active": False}, **rec))
        f = self.svc.app(req)
        if f is not None and hasattr(f, "__await__"):
            await f
        await conn.done
        self.log("done", id=i, code=conn.code)

    # ------------------------------------------------------------- tasks of clients
    def busy(self):
        s = self.s
        return bool(s.queued or s.unrunnable or any(w.processing for w in s.workers.values()))

    def act(self):
        s = self.s
        s.transition_log.append(("key", "a", "b", {}, "stimulus", s.loop.time()))
        self.log("act", busy=self.busy())

    def compute(self):
        s, rng = self.s, self.rng
        x = rng.random()
        ws = list(s.workers.values())
        if x < 0.6:
            k = "t%d" % rng.randint(0, 999)
            if ws and rng.random() < 0.6:
                rng.choice(ws).processing[k] = 1.0
            elif rng.random() < 0.5:
                s.unrunnable[k] = 1.0
            else:
                s.queued.add(k)
        else:
            for w in ws:
                w.processing.clear()
            if x > 0.7:
                s.unrunnable.clear()
            if x > 0.8:
                s.queued.clear()
        self.act()

    # ------------------------------------------------------------- the world
    def step(self, what=None):
        rng, s, cfg = self.rng, self.s, self.cfg
        what = what or rng.choices(["cmd", "bad", "join", "leave", "want", "task", "gw"], cfg["mix"])[0]
        if what == "cmd":
            self.command()
            for _ in range(2):
                if rng.random() < cfg["bursts"]:
                    self.command()
        elif what == "bad":
            self.command(right=False) if rng.random() < 0.7 else self.command("none")
        elif what == "join" and len(s.workers) < 8:
            if self.gone and rng.random() < 0.3:
                n = self.gone.pop()                    # the same worker again, after a restart
            else:
                self.nw += 1
                n = "w%d" % self.nw
            s.join(n, rng.random() < cfg["long"])
        elif what == "leave" and s.workers:
            a = rng.choice(sorted(s.workers))
            self.gone.add(s.workers[a].name)
            s.leave(a)
        elif what == "want":
            self.want = rng.choice([0, 0, 1, 2, 3, 5, 8, 12])
        elif what == "task":
            self.compute()
        elif what == "gw":
            self.mode = "down" if self.mode == "up" else "up"

    async def go(self):
        cfg, rng = self.cfg, self.rng
        self.gone = set()
        run = self

        class Client:
            def __init__(self, *a, **kw):
                pass

            def fetch(self, *a, **kw):
                return run.fetch(*a, **kw)
        pre.AsyncHTTPClient = Client
        web.Application.listen = lambda app, *a, **kw: FakeServer()
        self.s = Scheduler(self)
        env = {"DASK_GATEWAY_CLUSTER_NAME": NAME, "DASK_GATEWAY_API_URL": API, "DASK_GATEWAY_API_TOKEN": TOKEN}
        tmp = None
        if cfg["file"]:
            tmp = tempfile.NamedTemporaryFile("w", prefix="tok")
            tmp.write(TOKEN)
            tmp.flush()
            env["DASK_GATEWAY_API_TOKEN"] = tmp.name
        os.environ.update(env)
        args = ["--dg-adaptive-period", str(cfg["ap"]), "--dg-heartbeat-period", str(cfg["period"]), "--dg-idle-timeout", str(cfg["idle"]),
                "--dg-api-address", ":0"]
        pre.dask_setup.callback(self.s, **pre.dask_setup.make_context("x", args).params)
        self.svc = self.s.services["gateway"]
        if tmp:
            tmp.close()
        for _ in range(cfg["len"]):
            self.step()
            self.hot = True
            d = rng.choice(cfg["gaps"])
            if d >= 0:
                await self.pause(d)
        self.hot, self.calm, self.mode = False, True, "up"
        await asyncio.sleep(45)
        if cfg["stop"]:
            self.svc.stop()
            self.log("stop")
            await asyncio.sleep(100)
        else:
            await asyncio.sleep(cfg["idle"] * 3)
        self.log("end")
        return {"period": int(cfg["period"] * 1000), "ap": int(cfg["ap"] * 1000), "idle": int(cfg["idle"] * 1000), "events": self.ev}


def case(seed):
    rng = random.Random(seed)
    return {"seed": seed, "len": rng.choice([10, 30, 60]), "period": rng.choice([0, 15, 15, 2]), "ap": rng.choice([3, 3, 1]),
            "idle": rng.choice([0, 0, 20, 8]), "dash": rng.random() < 0.8, "file": rng.random() < 0.2, "stop": rng.random() < 0.2,
            "fail": rng.choice([0, 0.1, 0.5]), "latency": rng.choice([[0], [0, 0.001, 0.02], [0.001, 0.5, 2]]),
            "retire": rng.choice([[0], [0, 0.1], [0.1, 2, 6]]), "noretire": rng.choice([0, 0, 0.2]), "fickle": rng.random() < 0.3,
            "confused": rng.choice([0, 0, 0, 0.1]), "hooks": rng.choice([0, 0.3, 0.7]), "bursts": rng.choice([0, 0.3, 0.5]), "long": rng.choice([0, 0, 0.2]),
            "mix": rng.choice([[4, 1, 4, 2, 3, 3, 0], [8, 1, 1, 1, 4, 0, 0], [2, 1, 5, 5, 1, 2, 1], [1, 1, 1, 1, 1, 8, 1]]),
            "gaps": rng.choice([[-1, 0, 0, 0.001, 1], [0, 0.5, 3, 1], [0, 1, 3, 6], [0.25, 3.0, 15.0, 0, 5]])}


def one(cfg):
    return vloop.run(Run(cfg).go)


def run(c):
    big = c.thorough
    if not os.environ.get("NOMODEL"):
        c.model(tlc.model_check("SchedMC", "SchedBig.cfg" if big else "SchedMC.cfg"), "Sched")
    cases = [case(c.seed * 1000000 + i) for i in range(int(os.environ.get("N", 0)) or (16000 if big else 1200))]
    traces = par.pmap(one, cases, chunk=8)
    kinds = {}
    for tr in traces:
        for e in tr["events"]:
            k = e["e"] if e["e"] != "ans" else "answer %s" % e["ok"]
            kinds[k] = kinds.get(k, 0) + 1
    c.note(events=kinds)
    c.sample({"case": cases[0], "events": traces[0]["events"][:6]})
    for i in range(0, len(traces), 2000):
        v = tlc.validate_parallel("SchedTrace", "SchedTrace.cfg", traces[i:i + 2000])
        c.traces_ok(len(v["verdicts"]), v["states"], v["distinct"])
        for cs, tr, r in zip(cases[i:], traces[i:], v["verdicts"]):
            why = [w if isinstance(w, dict) else {"what": w, "at": 0} for w in r["why"]]
            if why:
                f = min(why, key=lambda w: w["at"])
                c.violation(f["what"], {"case": cs, "at": f["at"], "all": why, "trace": tr})


if __name__ == "__main__":
    report.main(run)
