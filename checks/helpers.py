"""C28: rate limiting, the cache and stopping tasks (spec/RateLimit.tla, LRU.tla, Tasks.tla)."""
import asyncio
import copy
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import par, report, repo, tlc, vloop  # noqa: E402,F401

from dask_gateway_server import utils  # noqa: E402


# ------------------------------------------------------------------ rate limiter
def rate_case(seed):
    """Arrival ticks of requests, and which callers go away when."""
    rng = random.Random(seed)
    rate = rng.choice([1, 2, 3, 5, 10, 10, 50, 100, 1000])
    b = rng.choice([1, 1, 2, 3, 5, 10, 20])
    u = rng.choice([1, 2, 3, 4, 7, 10, 1000])
    at, arr = 0, []
    for _ in range(rng.randint(3, 45)):
        x = rng.random()
        if x < 0.55:
            pass                                   # a burst
        elif x < 0.85:
            at += rng.randint(0, 2 * u)
        elif x < 0.95:
            at += rng.randint(0, 4 * b * u)
        else:
            at += rng.randint(0, 40 * b * u)
        arr.append(at)
    gone = {i + 1: rng.randint(1, 3 * b * u) for i in range(len(arr)) if rng.random() < rng.choice([0, 0, 0.1])}
    return {"rate": rate, "b": b, "u": u, "arr": arr, "gone": gone}


async def rate_run(case):
    loop = asyncio.get_running_loop()
    rate, b, u = case["rate"], case["b"], case["u"]
    tick = 1.0 / (rate * u)
    start = case.get("start", 0)
    await asyncio.sleep(start)
    t0 = loop.time()
    lim = utils.RateLimiter(rate=rate, burst=b)
    ev = []

    def now():
        x = (loop.time() - t0) / tick
        # a permit early by more than rounding counts as a tick early
        return int(round(x)) if abs(x - round(x)) < 1e-3 else int(x)

    async def one(i):
        ev.append({"e": "ask", "i": i, "at": now()})
        try:
            await lim.acquire()
        except asyncio.CancelledError:
            ev.append({"e": "cancel", "i": i, "at": now()})
            raise
        ev.append({"e": "grant", "i": i, "at": now()})
    tasks = []
    for i, a in enumerate(case["arr"], 1):
        wait = t0 + a * tick - loop.time()
        if wait > 0:
            await asyncio.sleep(wait)
        t = asyncio.ensure_future(one(i))
        tasks.append(t)
        if i in case["gone"]:
            loop.call_later(case["gone"][i] * tick, t.cancel)
        await asyncio.sleep(0)
    await asyncio.wait(tasks, timeout=1e6)
    ev.append({"e": "end", "at": now()})
    return {"b": b, "u": u, "events": ev}


def rate_one(case):
    return vloop.run(rate_run, case)


def rate_small():
    """All ways to request up to five permits within few ticks."""
    res = []
    for b, u in itertools.product([1, 2, 3], [1, 2]):
        for gaps in itertools.product([0, 1, 2, 5], repeat=4):
            res.append({"rate": 10, "b": b, "u": u, "arr": list(itertools.accumulate((0,) + gaps)), "gone": {}})
    return res


# ------------------------------------------------------------------ cache
def held(c, ops):
    """How many entries a copy still gives out."""
    c = copy.deepcopy(c)
    return sum(c.get(k) is not None for k in {"k%d" % o[1] for o in ops})


def lru_run(case):
    cap, ops = case
    c = utils.LRUCache(cap)
    res = []
    for op, k, v in ops:
        got = 0
        if op == "get":
            got = c.get("k%d" % k) or 0
        elif op == "put":
            c.put("k%d" % k, v)
        else:
            c.discard("k%d" % k)
        res.append({"op": op, "k": k, "v": v, "got": got, "size": held(c, ops)})
    # what is left, asked for without disturbing earlier observations
    for k in sorted({o[1] for o in ops}):
        res.append({"op": "get", "k": k, "v": 0, "got": c.get("k%d" % k) or 0, "size": held(c, ops)})
    return {"cap": cap, "ops": res}


def lru_cases(c):
    rng = random.Random(c.seed)
    res = []
    alphabet = [("get", k) for k in (1, 2, 3)] + [("put", k) for k in (1, 2, 3)] + [("discard", 1)]
    for cap in (1, 2):
        for seq in itertools.product(alphabet, repeat=5 if c.thorough else 4):
            res.append((cap, [(op, k, 10 + i) for i, (op, k) in enumerate(seq)]))
    for _ in range(3000 if c.thorough else 400):
        keys = rng.randint(1, 8)
        res.append((rng.choice([0, 1, 2, 3, 4, 6]),
                    [(rng.choice(["get", "get", "put", "put", "put", "discard"]), rng.randint(1, keys), i + 1)
                     for i in range(rng.randint(5, 60))]))
    return res


# ------------------------------------------------------------------ groups of tasks
class Boom(Exception):
    pass


class TaskRun:
    """Tasks with scripted behaviour under a real group, pool, or cancel_task."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.kind = self.rng.choice(["group", "group", "pool", "pool", "task"])
        self.ev = []
        self.stopping = False

    def log(self, e, i=0):
        self.ev.append({"e": e, "i": i, "at": int(round((asyncio.get_running_loop().time() - 1000) * 1000))})

    def d(self):
        return self.rng.choice([0, 0, 1, 1, 2, 3, 5])

    async def work(self, i):
        """What happens inside; the task may take its time to end, or ignore the interruption."""
        rng = self.rng
        left = rng.choice([0, 0, 0, 0, 1, 1, 2])       # interruptions ignored or cleaned up after
        how = rng.choice(["raise", "raise", "cleanup", "return", "boom", "ignore"])
        n = rng.randint(1, 4)
        while n:
            n -= 1
            try:
                await asyncio.sleep(self.d())
            except asyncio.CancelledError:
                self.log("hit", i)
                if how == "cleanup":
                    await asyncio.sleep(self.d())
                    raise
                if how == "return":
                    await asyncio.sleep(self.d())
                    return
                if how == "boom":
                    await asyncio.sleep(self.d())
                    raise Boom("cleanup failed")
                if how == "ignore" and left:
                    left -= 1
                    continue
                raise
        if rng.random() < 0.1:
            raise Boom("failed")

    async def inside(self, i):
        try:
            await self.work(i)
        finally:
            self.log("end" if self.kind != "group" else "leave", i)

    async def member(self, i):
        rng = self.rng
        for _ in range(rng.randint(1, 3)):
            try:
                await asyncio.sleep(self.d())
            except asyncio.CancelledError:
                self.log("hit", i)
                raise
            entered = False
            try:
                async with self.g.cancellable():
                    entered = True
                    self.log("enter", i)
                    await self.inside(i)
            except asyncio.CancelledError:
                if not entered:
                    self.log("refused", i)
                raise
            except Boom:
                pass
            try:
                await asyncio.sleep(self.d())
            except asyncio.CancelledError:
                self.log("hit", i)
                raise

    async def whole(self, i):
        try:
            await self.member(i)
        finally:
            self.log("fin", i)

    async def run(self):
        rng, n = self.rng, self.rng.randint(1, 6)
        tasks = []
        if self.kind == "group":
            self.g = utils.CancelGroup()
            for i in range(1, n + 1):
                tasks.append(asyncio.ensure_future(self.whole(i)))
            stop = self.g.cancel
        elif self.kind == "pool":
            self.p = utils.TaskPool()
            for i in range(1, n + 1):
                tasks.append(self.p.spawn(self.inside(i)))
                self.log("enter", i)
            stop = self.p.close
        else:
            tasks.append(asyncio.ensure_future(self.inside(1)))
            self.log("enter", 1)

            async def stop():
                try:
                    await utils.cancel_task(tasks[0])
                except Boom:
                    pass
        await asyncio.sleep(rng.choice([0, 0, 1, 2, 3, 4, 7]))
        for _ in range(rng.choice([0, 1, 2])):
            await asyncio.sleep(0)

        async def stopper():
            self.log("stop")
            await stop()
        s = asyncio.ensure_future(stopper())
        # the pool and cancel_task may find finished tasks only; a second call must be harmless
        done, _ = await asyncio.wait([s], timeout=500)
        if s in done:
            s.result()
            self.log("stopped")
        if self.kind == "pool" and rng.random() < 0.3:
            await asyncio.wait([asyncio.ensure_future(stop())], timeout=500)
        if self.kind == "group":
            # newcomers
            for i in range(n + 1, n + 1 + rng.randint(0, 2)):
                tasks.append(asyncio.ensure_future(self.whole(i)))
        await asyncio.wait(tasks, timeout=500)
        self.log("over")
        return self.ev


def task_one(seed):
    return vloop.run(TaskRun(seed).run)


def judge(c, module, traces, cases, what):
    for i in range(0, len(traces), 3000):
        v = tlc.validate_parallel(module, module + ".cfg", traces[i:i + 3000])
        c.traces_ok(len(v["verdicts"]), v["states"], v["distinct"])
        for case, tr, r in zip(cases[i:], traces[i:], v["verdicts"]):
            if not r["ok"]:
                c.violation("%s: %s" % (what, "; ".join(map(str, r["why"]))), {"case": case, "at": r["at"], "trace": tr})


def run(c):
    big = c.thorough
    c.model(tlc.model_check("RateLimitMC", "RateLimitBig.cfg" if big else "RateLimitMC.cfg"), "RateLimit")
    c.model(tlc.model_check("LRUMC", "LRUBig.cfg" if big else "LRUMC.cfg"), "LRU")
    c.model(tlc.model_check("TasksMC", "TasksBig.cfg" if big else "TasksMC.cfg"), "Tasks")
    c.model(tlc.model_check("TasksMC", "TasksPool.cfg"), "Tasks, pool")
    cases = rate_small() + [rate_case(c.seed * 100000 + i) for i in range(6000 if big else 600)]
    for i, x in enumerate(cases):
        x["start"] = [0, 0, 3, 1000.5][i % 4]
    traces = par.pmap(rate_one, cases, chunk=40)
    c.note(rate_traces=len(traces))
    c.sample({"rate": cases[-1], "events": traces[-1]["events"][:6]})
    judge(c, "RateLimitTrace", traces, cases, "rate limiter")
    cases = lru_cases(c)
    traces = par.pmap(lru_run, cases, chunk=200)
    c.note(lru_traces=len(traces))
    judge(c, "LRUTrace", traces, cases, "cache")
    cases = [c.seed * 100000 + i for i in range(12000 if big else 1500)]
    traces = par.pmap(task_one, cases, chunk=40)
    kinds = {k: sum(e["e"] == k for tr in traces for e in tr) for k in ("enter", "refused", "hit", "stopped", "leave", "end")}
    c.note(task_traces=len(traces), task_events=kinds)
    judge(c, "TasksTrace", traces, cases, "stopping tasks")
    c.assumptions += ["times are those of a virtual clock; permits are compared to within 1/1000 of a tick",
                      "a request cancelled while waiting keeps its place in the budget"]


if __name__ == "__main__":
    report.main(run)
