"""C11: the route log (spec/RouteLog.tla)."""
import asyncio
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import http, par, report, tlc, vloop  # noqa: E402
import harness.repo  # noqa: E402,F401
from aiohttp import web  # noqa: E402
from dask_gateway_server.proxy.core import Proxy  # noqa: E402

TOKEN = "0123456789abcdef"
AUTH = {"Authorization": "token " + TOKEN}
BAD_AUTH = [{}, {"Authorization": ""}, {"Authorization": "token"}, {"Authorization": "token "},
            {"Authorization": "token x" + TOKEN}, {"Authorization": "token " + TOKEN[:-1]},
            {"Authorization": "bearer " + TOKEN}, {"Authorization": "Basic " + TOKEN},
            {"Authorization": TOKEN}, {"Authorization": "token  " + TOKEN}]


class GatedWriter(http.Writer):
    """A client connection that can stall."""

    def __init__(self, on_data, on_start):
        super().__init__(on_data)
        self.gate = asyncio.Event()
        self.gate.set()
        self.on_start = on_start

    async def write_headers(self, status_line, headers):
        await super().write_headers(status_line, headers)
        self.on_start(status_line)

    async def write(self, chunk):
        await self.gate.wait()
        await super().write(chunk)


class Recorder:
    def __init__(self, max_events, prefix):
        self.max, self.prefix = max_events, prefix
        self.eff = prefix.rstrip("/")
        self.ev = []
        self.inc = -1
        self.fol = {}
        self.app = None
        self.held = {}       # follower -> (id, incarnation)

    def key(self, r):
        return "%s|%s" % (r["kind"], r["sni"] if r["kind"] == "SNI" else r["path"])

    def name(self, kind, name):
        return "%s|%s" % (kind, name if kind == "SNI" else self.eff + name)

    async def start(self):
        self.app = web.Application()
        self.proxy = Proxy(prefix=self.prefix, gateway_url="http://127.0.0.1:9", api_token=TOKEN,
                           max_events=self.max, externally_managed=True, gateway_address="127.0.0.1:9")
        await self.proxy.setup(self.app)
        self.app.freeze()
        self.inc += 1
        self.ev.append({"e": "start", "k": self.name("PATH", "/"), "v": "http://127.0.0.1:9",
                        "id": await self.probe()})

    async def probe(self):
        a = await http.call(self.app, "GET", "/api/v1/routes", AUTH)
        assert a.status == 200, (a.status, a.reason, a.exc)
        return a.json["id"]

    async def put(self, kind, name, v):
        kw = {"sni": name} if kind == "SNI" else {"path": name}
        await self.proxy.add_route(kind=kind, target=v, **kw)
        self.ev.append({"e": "put", "k": self.name(kind, name), "v": v, "id": await self.probe()})

    async def delete(self, kind, name):
        kw = {"sni": name} if kind == "SNI" else {"path": name}
        await self.proxy.remove_route(kind=kind, **kw)
        self.ev.append({"e": "del", "k": self.name(kind, name), "id": await self.probe()})

    async def list(self, f):
        a = await http.call(self.app, "GET", "/api/v1/routes", AUTH)
        e = {"e": "list", "f": f, "status": a.status, "routes": [], "id": -1}
        if a.status == 200:
            e["routes"] = [[self.key(r), r["target"]] for r in a.json["routes"]]
            e["id"] = a.json["id"]
            self.held[f] = (a.json["id"], self.inc)
        self.ev.append(e)

    def watch(self, f, arb=None):
        if f in self.fol:
            return
        if arb is None:
            if f not in self.held:
                return
            ident, src = self.held[f]
        else:
            ident, src = arb, -1
        malformed = not isinstance(ident, int)
        rec = {"started": False, "buf": b""}

        def begin(status):
            rec["started"] = True
            self.ev.append({"e": "watch", "f": f, "id": -1 if malformed else ident, "src": src, "status": status,
                            "malformed": malformed})

        def on_start(line):
            begin(int(line.split()[1]))

        def on_data(chunk):
            rec["buf"] += chunk
            while b"\n" in rec["buf"]:
                line, rec["buf"] = rec["buf"].split(b"\n", 1)
                es = [{"id": x["id"], "k": self.key(x["route"]),
                       "v": x["route"]["target"] if x["type"] == "PUT" else
                       "-" if x["type"] == "DELETE" else "?"} for x in json.loads(line)["events"]]
                self.ev.append({"e": "recv", "f": f, "events": es})
                if es:
                    self.held[f] = (es[-1]["id"], self.inc)

        w = GatedWriter(on_data, on_start)
        rec["writer"] = w

        async def serve():
            req = http.make_request(self.app, "GET", "/api/v1/routes?watch=1&last_id=%s" % ident, AUTH, None, w)
            try:
                await self.app._handle(req)
            except web.HTTPException as exc:
                begin(exc.status)
            except asyncio.CancelledError:
                if not rec.get("dropped"):
                    self.ev.append({"e": "end", "f": f})
                self.fol.pop(f, None)
                return
            if rec["started"] and w.status is not None:
                self.ev.append({"e": "end", "f": f})
            self.fol.pop(f, None)

        rec["task"] = asyncio.ensure_future(serve())
        self.fol[f] = rec

    async def drop(self, f):
        rec = self.fol.get(f)
        if rec is not None:
            rec["dropped"] = True
            rec["task"].cancel()
            await asyncio.wait([rec["task"]])
            self.fol.pop(f, None)
            self.ev.append({"e": "drop", "f": f})

    def gate(self, f, is_open):
        rec = self.fol.get(f)
        if rec is not None:
            (rec["writer"].gate.set if is_open else rec["writer"].gate.clear)()

    async def denied(self, i, watch):
        headers = BAD_AUTH[i % len(BAD_AUTH)]
        path = "/api/v1/routes" + ("?watch=1&last_id=%d" % self.held.get("f", (0,))[0] if watch else "")
        w = http.Writer()
        req = http.make_request(self.app, "GET", path, headers, None, w)
        status, leak = 500, False
        try:
            task = asyncio.ensure_future(self.app._handle(req))
            done, _ = await asyncio.wait([task], timeout=1)
            if not done:
                task.cancel()
                status, leak = 200, True
            else:
                status = task.result().status
                leak = status < 400
        except web.HTTPException as exc:
            status = exc.status
        except Exception:
            status = 500
        self.ev.append({"e": "denied", "status": status, "leak": leak})

    async def settle(self):
        await vloop.settle(20)
        self.ev.append({"e": "settle", "paused": [f for f, r in self.fol.items() if not r["writer"].gate.is_set()]})

    async def close(self):
        self.ev.append({"e": "close"})
        await self.app.on_shutdown.send(self.app)
        await self.settle()
        for f in list(self.fol):
            await self.drop(f)

    async def restart(self, delay, clean):
        if clean:
            await self.close()
        for f in list(self.fol):
            await self.drop(f)
        await asyncio.sleep(delay)
        await self.start()


async def drive(case):
    r = Recorder(case["max"], case["prefix"])
    await r.start()
    for op in case["ops"]:
        k = op[0]
        if k in ("put",):
            await r.put(*op[1:])
        elif k == "del":
            await r.delete(*op[1:])
        elif k == "list":
            await r.list(op[1])
        elif k == "watch":
            arb = op[2] if len(op) > 2 else None
            if isinstance(arb, list):
                arb = (await r.probe()) + arb[0]
            r.watch(op[1], arb)
        elif k == "drop":
            await r.drop(op[1])
        elif k == "settle":
            await r.settle()
        elif k == "run":
            await asyncio.sleep(0)
        elif k == "gate":
            r.gate(op[1], op[2])
        elif k == "denied":
            await r.denied(op[1], op[2])
        elif k == "restart":
            await r.restart(op[1] if len(op) > 1 else 0.5, op[2] if len(op) > 2 else True)
    for f in list(r.fol):
        r.gate(f, True)
    await r.settle()
    await r.close()
    return {"max": case["max"], "events": ranked(r.ev)}


def record(case):
    return vloop.run(drive, case)


def ranked(evs):
    """Ids as their rank (TLC's integers are 32 bit)."""
    ids = {-1}
    for e in evs:
        if "id" in e:
            ids.add(e["id"])
        ids.update(x["id"] for x in e.get("events", ()))
    rank = {x: i for i, x in enumerate(sorted(ids))}
    for e in evs:
        if "id" in e:
            e["id"] = rank[e["id"]]
        for x in e.get("events", ()):
            x["id"] = rank[x["id"]]
    return evs


ROUTES = [("SNI", "a"), ("SNI", "b"), ("PATH", "/clusters/a"), ("PATH", "/clusters/b"), ("PATH", "/x"), ("SNI", "/x")]


def random_case(rng):
    n = rng.choice([15, 40, 90])
    names = ROUTES[:rng.choice([1, 3, 6])]
    fs = ["f", "g", "h"][:rng.choice([1, 2, 3])]
    w = {"put": 10, "del": 6, "list": 4, "watch": 5, "drop": 3, "settle": 3, "run": 4, "gate": 3, "denied": 1,
         "arb": 1, "restart": 0.5, "burst": 1}
    ops = []
    for _ in range(n):
        o = rng.choices(list(w), list(w.values()))[0]
        f = rng.choice(fs)
        if o == "put":
            ops.append(["put", *rng.choice(names), rng.choice(["tls://1.2.3.4:1", "http://h:2", "http://h:3"])])
        elif o == "burst":
            for _ in range(rng.choice([3, 8, 20])):
                ops.append(["put", *rng.choice(names), "http://h:%d" % rng.randrange(9)])
        elif o == "del":
            ops.append(["del", *rng.choice(names)])
        elif o == "gate":
            ops.append(["gate", f, rng.random() < 0.5])
        elif o == "denied":
            ops.append(["denied", rng.randrange(20), rng.random() < 0.5])
        elif o == "arb":
            x = rng.choice([0, 1, 2, 5, -1, "x", "", "1.5", [0], [1], [2], [-1], [-2], [-3], [-7], [50], [10 ** 6]])
            ops.append(["watch", f, x])
        elif o == "restart":
            ops.append(["restart", rng.choice([0.125, 1, 60, 3600]), rng.random() < 0.6])
        elif o in ("settle", "run"):
            ops.append([o])
        else:
            ops.append([o, f])
    return {"max": rng.choice([1, 2, 3, 4, 5, 10, 100]), "prefix": rng.choice(["", "/foo", "/foo/", "/a/b"]), "ops": ops}


GEN = """SPECIFICATION GSpec
CONSTANTS
  Keys = {"a", "b", "c"}
  Vals = {"x", "y"}
  Followers = {"f", "g"}
  Keep = 2
  MaxLog = 30
  MaxInc = 2
  Seeded = TRUE
  Depth = %d
INVARIANT Emit
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
"""
CONCRETE = {"a": ("SNI", "a"), "b": ("PATH", "/clusters/a"), "c": ("PATH", "/x")}


def concrete(script, max_events, prefix):
    ops = []
    for s in script:
        if s[0] == "put":
            ops.append(["put", *CONCRETE[s[1]], "http://%s" % s[2]])
        elif s[0] == "del":
            ops.append(["del", *CONCRETE[s[1]]])
        elif s[0] == "watch":
            ops += [["watch", s[1]], ["run"], ["run"]]
        elif s[0] == "settle":
            ops.append(["settle"])
        elif s[0] == "restart":
            ops.append(["restart", 0.125])
        else:
            ops.append(s)
    return {"max": max_events, "prefix": prefix, "ops": ops}


def run(c):
    rng = random.Random(c.seed * 1000 + 11)
    c.model(tlc.model_check("RouteLog", "RouteLogMC.cfg"), "RouteLog")
    if c.thorough:
        c.model(tlc.model_check("RouteLog", "RouteLogBig.cfg"), "RouteLog(2 followers)")
    num, rnd = (500, 900) if not c.thorough else (6000, 12000)
    cases = []
    for depth in (12, 30):
        r, scripts = tlc.behaviours("RouteLogGen", GEN % depth, num, depth + 1, c.seed + depth)
        c.transitions += r.states
        scripts = rng.sample(scripts, min(len(scripts), num))
        cases += [concrete(s, rng.choice([2, 4, 5]), rng.choice(["", "/foo"])) for s in scripts]
    ntlc = len(cases)
    cases += [random_case(rng) for _ in range(rnd)]
    # long history at the default retention
    for _ in range(2):
        ops = [["list", "f"], ["list", "g"], ["watch", "f"], ["list", "h"]]
        for k in range(330):
            ops.append(["put", *rng.choice(ROUTES), "http://h:%d" % k] if rng.random() < .7 else
                       ["del", *rng.choice(ROUTES)])
            if k in (45, 49, 50, 60, 99, 100, 101, 150, 151, 249):
                ops += [["watch", "g"], ["settle"], ["drop", "g"], ["list", "g"], ["watch", "h"], ["run"], ["run"], ["drop", "h"]]
        cases.append({"max": 100, "prefix": "", "ops": ops})
    traces = par.pmap(record, cases, chunk=16)
    v = tlc.validate_parallel("RouteLogTrace", "RouteLogTrace.cfg", traces)
    c.traces_ok(len(traces), v["states"], v["distinct"])
    c.note(tlc_scripts=ntlc, random_scripts=len(cases) - ntlc, events=sum(len(t["events"]) for t in traces),
           recv=sum(1 for t in traces for e in t["events"] if e["e"] == "recv"),
           refused=sum(1 for t in traces for e in t["events"] if e["e"] == "watch" and e["status"] != 200))
    c.sample({"script": cases[-3]["ops"][:20], "events": traces[-3]["events"][:20]})
    for i, ver in enumerate(v["verdicts"]):
        if not ver["ok"]:
            evs = traces[i]["events"]
            c.violation("%s (event %d: %s)" % ("; ".join(ver["why"]), ver["at"], evs[ver["at"] - 1] if ver["at"] else None),
                        {"case": cases[i], "events": evs[:max(ver["at"], 1)]})


if __name__ == "__main__":
    report.main(run)
