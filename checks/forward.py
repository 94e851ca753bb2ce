"""C19: messages to schedulers (spec/Forward.tla, Limits.tla)."""
import asyncio
import contextvars
import itertools
import json
import math
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import fakehttp, par, report, tlc, vloop  # noqa: E402
from harness.accessworld import AccessWorld  # noqa: E402

BIG = 2 * 10 ** 9
REQ = contextvars.ContextVar("req", default=None)
MISSING = "<missing>"


def size(x):
    if x is MISSING or x is None:
        return {"given": False, "num": False, "int": False, "n": 0}
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        return {"given": True, "num": False, "int": False, "n": 0}
    if x != x:
        return {"given": True, "num": True, "int": False, "n": -1}
    n = max(-BIG, min(BIG, int(round(x * 1000)) if abs(x) < BIG else int(math.copysign(BIG, x))))
    return {"given": True, "num": True, "int": isinstance(x, int), "n": n}


def sent(x):
    """A size in a message: None is -1, what is no number is -9."""
    s = size(x)
    return s["n"] if s["num"] else -1 if x is None else -9


class Run:
    def __init__(self, case):
        self.case, self.rng = case, random.Random(case["seed"])
        self.ev, self.n, self.tasks = [], 0, {}
        self.script = {}

    def ms(self):
        return int(round((asyncio.get_running_loop().time() - 1000) * 1000))

    def fate(self):
        out = {}
        for c, r in self.w.rows()["cl"].items():
            out[c] = {5: "stopped", 6: "failed"}.get(r["target"], "up" if r["status"] == 3 else "new")
        return out

    async def sched(self, method, url, headers, body):
        w, i = self.w, REQ.get() or "?"
        auth = headers.get("Authorization", "")
        body = body if isinstance(body, dict) else {}
        k = next((c for c, n in w.addr.items() if url == "http://h:%d/api/comm" % (n + 200) and method == "POST"), "?")
        self.ev.append({"e": "send", "i": i, "at": self.ms(), "k": k, "op": str(body.get("op")), "active": body.get("active") is True,
                        "tok": next((c for c in w.ident if auth == "token " + w.token(c)), "?"),
                        "count": sent(body.get("count")), "min": sent(body.get("minimum")), "max": sent(body.get("maximum"))})
        plan = self.script.get(i) or []
        what, delay = plan.pop(0) if plan else self.outcome()
        if delay:
            await asyncio.sleep(delay)
        ok = isinstance(what, int) and what < 400
        self.ev.append({"e": "reply", "i": i, "ok": ok, "at": self.ms()})
        if isinstance(what, int):
            return what, {}
        return {"refused": fakehttp.Refused("refused"), "timeout": asyncio.TimeoutError(), "os": OSError("unreachable"),
                "payload": ValueError("bad"), "disconnect": fakehttp.aiohttp.ServerDisconnectedError()}[what]

    def outcome(self):
        rng = self.rng
        ok = rng.random() < self.case["ok"]
        return (rng.choice([200, 200, 201, 204]) if ok else
                rng.choice([400, 401, 403, 404, 409, 422, 500, 502, 503, "refused", "timeout", "os", "payload", "disconnect"]),
                rng.choice([0, 0, 0, 0.01, 0.1, 0.5, 3, 20]) if self.case["slow"] else 0)

    # ------------------------------------------------------------- driver
    async def begin(self, k, op, sizes, active=True, raw=None, plan=None):
        w = self.w
        self.n += 1
        i = "r%d" % self.n
        body = {x: v for x, v in sizes.items() if v is not MISSING}
        if op == "adapt" and active is not MISSING:
            body["active"] = active
        lim = self.case["limits"][int(k[1:]) - 1]
        await self.collect()
        f = self.fate()
        self.ev.append({"e": "ask", "i": i, "k": k, "op": op, "live": f.get(k) == "up", "fate": f, "object": raw is None,
                        "size": {x: size(v) for x, v in sizes.items()}, "active": active is not False,
                        "lim": -1 if lim is None else lim * 1000})
        if plan is not None:
            self.script[i] = list(plan)

        async def go():
            REQ.set(i)
            return await w.req("POST", "/api/v1/clusters/%s/%s" % (w.rnames[k], op), {"Authorization": w.basic("alice")},
                               body=raw if raw is not None else json.dumps(body).encode())
        self.tasks[i] = asyncio.ensure_future(go())
        await self.collect()
        return i

    async def collect(self):
        await vloop.settle(30)
        for i, t in list(self.tasks.items()):
            if t.done():
                del self.tasks[i]
                r = t.result()
                self.ev.append({"e": "done", "i": i, "st": r.status, "fate": self.fate(),
                                "told": not (r.json or {}).get("ok", True) and bool((r.json or {}).get("msg"))})

    async def wait(self, seconds):
        """Let time pass, noting answers as they come."""
        end = asyncio.get_running_loop().time() + seconds
        while True:
            await self.collect()
            left = end - asyncio.get_running_loop().time()
            if left <= 1e-9:
                return
            if self.tasks:
                await asyncio.wait(list(self.tasks.values()), timeout=left, return_when=asyncio.FIRST_COMPLETED)
            else:
                await asyncio.sleep(left)

    def sizes(self, op):
        rng = self.rng
        good = [0, 1, 2, 3, 4, 7, 100]
        bad = [-1, -100, True, False, None, MISSING, "2", "", [], [1], {}, 1.0, 2.5, -0.5, float("nan"), float("inf"), float("-inf"),
               10 ** 6, 10 ** 30]
        pick = lambda: rng.choice(good) if rng.random() < self.case["good"] else rng.choice(bad)
        if op == "scale":
            return {"count": pick()}
        s = {"minimum": rng.choice([pick(), pick(), MISSING, None]), "maximum": rng.choice([pick(), pick(), MISSING, None])}
        return s

    async def ask(self, k, plan=None):
        rng = self.rng
        op = rng.choice(["scale", "adapt"])
        s = self.sizes(op)
        raw = rng.choice([b"", b"{", b"5", b"[]", b"\"count\"", b"null", b"\xff"]) if rng.random() < self.case["junk"] else None
        await self.begin(k, op, s, rng.choice([True, True, False, MISSING]), raw, plan)

    async def step(self):
        rng, w = self.rng, self.w
        x = rng.random()
        cs = sorted(w.ident)
        k = rng.choice(cs)
        if x < 0.5:
            await self.ask(k)
        elif x < 0.75:
            await self.wait(rng.choice([0.01, 0.05, 0.1, 0.2, 0.4, 1, 5, 30]))
        elif x < 0.8:
            if self.fate().get(k) == "new":
                await w.grow(k)
                self.ev.append({"e": "see", "fate": self.fate()})
        elif x < 0.8 + self.case["stop"]:
            who = rng.choice([w.basic("alice"), "token " + w.token(k)])
            await w.req("DELETE", "/api/v1/clusters/" + w.rnames[k], {"Authorization": who})
            await vloop.settle(30)
            self.ev.append({"e": "stop", "k": k, "fate": self.fate()})
        elif x < 0.95:
            if self.tasks:
                i = rng.choice(sorted(self.tasks))
                t = self.tasks.pop(i)
                t.cancel()
                await vloop.settle(30)
                if t.cancelled():
                    self.ev.append({"e": "gone", "i": i, "fate": self.fate()})
                else:
                    self.tasks[i] = t
        else:
            await w.release_stops()
            self.ev.append({"e": "see", "fate": self.fate()})

    async def run(self):
        case = self.case
        self.w = w = AccessWorld({"auth": "simple"})
        w.addr = {}
        try:
            await w.up()
            w.gw.backend.scheduler_api_retries = case["max"]
            fakehttp.install(self.sched)
            for n, lim in enumerate(case["limits"]):
                r = await w.req("POST", "/api/v1/clusters/", {"Authorization": w.basic("alice")},
                                body=json.dumps({"cluster_options": {"max": -1 if lim is None else lim}}).encode())
                assert r.status == 201, r.status
                await vloop.settle(40)
                w.scan()
                if n not in case["late"]:
                    await w.grow("c%d" % (n + 1))
            self.ev.append({"e": "see", "fate": self.fate()})
            if "plans" in case:
                for plan in case["plans"]:
                    f = self.fate()
                    up = [k for k in sorted(f) if f[k] == "up"]
                    if not up:
                        break
                    await self.ask(up[0], plan=[(p, 0) for p in plan])
                    await self.wait(20)
            else:
                for _ in range(case["steps"]):
                    await self.step()
            await self.wait(200)
            self.ev.append({"e": "end", "fate": self.fate()})
            return {"max": case["max"], "events": self.ev}
        finally:
            w.close()


def record(case):
    return vloop.run(lambda: Run(case).run())


for_tlc = {"count": "count", "minimum": "min", "maximum": "max"}


def rename(tr):
    for e in tr["events"]:
        if e["e"] == "ask":
            e["size"] = {for_tlc.get(k, k): v for k, v in e["size"].items()}
    return tr


def planned(rng):
    """Every sequence of outcomes of the attempts, up to the configured number."""
    cases = []
    for mx in (0, 1, 2, 3, 5):
        n = max(1, mx)
        plans = [p for k in range(n + 1) for p in itertools.product(["f"], repeat=k)]
        seqs = [list(p) + ([200] if len(p) < n else []) for p in plans]
        for _ in range(6):
            ps = [[rng.choice([500, 503, 404, 401, "refused", "timeout", "os", "disconnect"]) if x == "f" else rng.choice([200, 204])
                   for x in s] for s in seqs]
            rng.shuffle(ps)
            cases.append({"limits": [None, 3, 0], "late": [], "max": mx, "plans": ps * 2, "seed": rng.random(), "ok": 1, "slow": False,
                          "good": 1, "junk": 0, "stop": 0})
    return cases


def judge(c, cases):
    traces = [rename(t) for t in par.pmap(record, cases, chunk=8)]
    v = tlc.validate_parallel("ForwardTrace", "ForwardTrace.cfg", traces)
    c.traces_ok(len(traces), v["states"], v["distinct"])
    kinds = {}
    for t in traces:
        for e in t["events"]:
            kinds[e["e"]] = kinds.get(e["e"], 0) + 1
    c.note(events=kinds,
           answers={s: sum(e["e"] == "done" and e["st"] == s for t in traces for e in t["events"]) for s in (200, 409, 422, 500)})
    c.sample({"max": traces[-1]["max"], "events": traces[-1]["events"][:8]})
    for i, ver in enumerate(v["verdicts"]):
        if not ver["ok"]:
            evs = traces[i]["events"][:max(ver["at"], 1)]
            c.violation("%s (event %d: %s)" % ("; ".join(ver["why"]), ver["at"], evs[-1]), {"case": cases[i], "events": evs})


def sizes_check(c, rng):
    """C18: scaling requests against the limits (with schedulers that always answer)."""
    cases = []
    for _ in range(150 if not c.thorough else 3000):
        cases.append({"limits": [rng.choice([None, 0, 1, 3, 50]) for _ in range(5)], "late": [], "max": 3, "steps": 60,
                      "seed": rng.random(), "ok": 1, "slow": False, "good": rng.choice([.5, .8]), "junk": .03, "stop": 0})
    judge(c, cases)


def run(c):
    c.model(tlc.model_check("ForwardMC", "ForwardMC.cfg"), "Forward")
    if c.thorough:
        c.model(tlc.model_check("ForwardMC", "ForwardBig.cfg"), "ForwardBig")
    rng = random.Random(c.seed * 53 + 19)
    cases = planned(rng)
    nplan = len(cases)
    for _ in range(500 if not c.thorough else 8000):
        n = rng.choice([2, 3, 5])
        cases.append({"limits": [rng.choice([None, None, 0, 1, 3, 50]) for _ in range(n)], "late": rng.sample(range(n), rng.choice([0, 0, 1])),
                      "max": rng.choice([0, 1, 2, 3, 3, 5, 8]), "steps": rng.choice([15, 40]), "seed": rng.random(), "ok": rng.choice([0, .2, .5, .9]),
                      "slow": rng.random() < .6, "good": rng.choice([.6, .95]), "junk": rng.choice([0, .1]), "stop": rng.choice([.01, .08])})
    c.note(planned=nplan, random_cases=len(cases) - nplan)
    judge(c, cases)


if __name__ == "__main__":
    report.main(run)
