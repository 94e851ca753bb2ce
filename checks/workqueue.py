"""C01, C02: the work queue (spec/WorkQueue.tla)."""
import asyncio
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import par, report, tlc, vloop  # noqa: E402
import harness.repo  # noqa: E402,F401
from dask_gateway_server.workqueue import Backoff, WorkQueue, WorkQueueClosed  # noqa: E402

UNIT = 0.125
ITEMS = ["a", "b", "c", "d", "e"]
CONS = ["c1", "c2", "c3", "c4"]


async def drive(ops, base, cap, tail=16):
    """Run environment operations against a real queue; returns the recorded events."""
    loop = asyncio.get_running_loop()
    t0 = loop.time()
    q = WorkQueue(backoff=Backoff(base_delay=base * UNIT, max_delay=cap * UNIT))
    ev = []
    tasks = {}
    held = []

    async def consume(c):
        try:
            item = await q.get()
        except WorkQueueClosed:
            ev.append({"e": "closed", "c": c})
        except asyncio.CancelledError:
            ev.append({"e": "cancelled", "c": c})
        else:
            ev.append({"e": "got", "c": c, "i": item})
            held.append(item)

    async def settle():
        await vloop.settle(12)
        ev.append({"e": "settle", "failures": {i: q.failures(i) for i in ITEMS}})

    for op in ops:
        k = op[0]
        if k == "put":
            ev.append({"e": "put", "i": op[1]})
            q.put(op[1])
        elif k == "put_after":
            ev.append({"e": "put_after", "i": op[1], "d": op[2]})
            q.put_after(op[1], op[2] * UNIT)
        elif k == "put_backoff":
            ev.append({"e": "put_backoff", "i": op[1]})
            q.put_backoff(op[1])
        elif k == "reset":
            ev.append({"e": "reset", "i": op[1]})
            q.reset_backoff(op[1])
        elif k == "done":
            i = op[1] if len(op) > 1 else None
            if i not in held:
                if not held:
                    continue
                i = held[0]
            held.remove(i)
            ev.append({"e": "done", "i": i})
            q.task_done(i)
        elif k == "get":
            c = op[1]
            if c in tasks and not tasks[c].done():
                continue
            ev.append({"e": "get", "c": c})
            # runs synchronously up to its first suspension, like a fresh call
            tasks[c] = asyncio.Task(consume(c), loop=loop, eager_start=True) \
                if sys.version_info >= (3, 12) else asyncio.ensure_future(consume(c))
        elif k == "cancel":
            t = tasks.get(op[1])
            if t is not None and not t.done():
                t.cancel()
        elif k == "close":
            ev.append({"e": "close"})
            q.close()
        elif k == "run":
            await asyncio.sleep(0)
        elif k == "settle":
            await settle()
        elif k == "tick":
            await settle()
            n = op[1] if len(op) > 1 else 1
            target = round((loop.time() - t0) / UNIT) + n
            ev.append({"e": "tick", "now": target})
            await asyncio.sleep(t0 + target * UNIT - loop.time())
    await settle()
    # let every outstanding timer fire and every item be consumed
    for _ in range(4):
        target = round((loop.time() - t0) / UNIT) + cap + tail if tail else 0
        # step through so that each timer is due at its own instant
        while round((loop.time() - t0) / UNIT) < target:
            now = round((loop.time() - t0) / UNIT) + 1
            ev.append({"e": "tick", "now": now})
            await asyncio.sleep(t0 + now * UNIT - loop.time())
            await vloop.settle(12)
            ev.append({"e": "settle", "failures": {}})
        break
    for _ in range(12):
        for c in CONS:
            if c not in tasks or tasks[c].done():
                ev.append({"e": "get", "c": c})
                tasks[c] = asyncio.ensure_future(consume(c))
        await settle()
        if not held:
            break
        while held:
            i = held.pop(0)
            ev.append({"e": "done", "i": i})
            q.task_done(i)
        await settle()
    return ev


def random_ops(rng, n, timers):
    ops = []
    items = ITEMS[:rng.choice([1, 2, 3, 5])]
    cons = CONS[:rng.choice([1, 2, 3, 4])]
    eager = rng.random() < 0.4      # bursts of operations before anything can run
    w = {"put": 6, "get": 6, "done": 4, "cancel": 5 if eager else 2, "run": 1 if eager else 3,
         "settle": 1 if eager else 2, "tick": 1 if eager else 3,
         "put_after": 6 if timers else 1, "put_backoff": 4 if timers else 1, "reset": 1}
    names = list(w)
    closed_at = rng.randrange(n // 2, n) if rng.random() < (0.15 if timers else 0.4) else None
    for k in range(n):
        if k == closed_at:
            ops.append(("close",))
            continue
        o = rng.choices(names, [w[x] for x in names])[0]
        if o in ("put", "done", "reset", "put_backoff"):
            ops.append((o, rng.choice(items)))
        elif o == "put_after":
            ops.append((o, rng.choice(items), rng.choice([0, 0, 1, 2, 3, 5, 8, 13, -1])))
        elif o in ("get", "cancel"):
            ops.append((o, rng.choice(cons)))
        elif o == "tick":
            ops.append((o, 1))
        else:
            ops.append((o,))
    return ops


GEN = """SPECIFICATION GSpec
CONSTANTS
  Items = {"a", "b", "c"}
  Consumers = {"c1", "c2", "c3"}
  MaxNow = 12
  Delays = {0, 1, 2, 4}
  BaseDelay = 1
  MaxDelay = 4
  MaxFails = 4
  Depth = %d
INVARIANT Emit
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
"""


def record(case):
    return {"base": case[1], "cap": case[2], "events": vloop.run(drive, *case)}


def run(c):
    timers = c.prop == "C02"
    rng = random.Random(c.seed * 1000 + int(c.prop[1:]))
    r = tlc.model_check("WorkQueue", "WorkQueueMC.cfg")
    c.model(r, "WorkQueue(2 items,3 consumers)")
    if c.thorough:
        c.model(tlc.model_check("WorkQueue", "WorkQueueBig.cfg", timeout=800), "WorkQueue(3 items,2 consumers)")
    depth, num = (40, 150) if not c.thorough else (80, 1500)
    r, scripts = tlc.behaviours("WorkQueueGen", GEN % depth, num, depth + 1, c.seed + 7)
    c.transitions += r.states
    cases = [(s, 1, 4) for s in scripts if not (timers and not any(o[0].startswith("put_") for o in s))]
    for _ in range(250 if not c.thorough else 3000):
        base, cap = rng.choice([(1, 4), (1, 20), (2, 9), (3, 300), (5, 5)])
        if cap > 100:
            cap = 40
        cases.append((random_ops(rng, rng.choice([10, 25, 60]), timers), base, cap))
    if not timers:
        # every short burst of operations on a queue with two waiting consumers
        ab = [("put", "a"), ("put", "b"), ("cancel", "c1"), ("cancel", "c2"), ("done",), ("run",), ("get", "c1")]
        for burst in itertools.product(ab, repeat=4 if not c.thorough else 5):
            cases.append(([("get", "c1"), ("get", "c2"), ("run",), *burst], 1, 4, 0))
    traces = par.pmap(record, cases, chunk=32)
    v = tlc.validate_parallel("WorkQueueTrace", "WorkQueueTrace.cfg", traces)
    c.traces_ok(len(traces), v["states"], v["distinct"])
    c.note(tlc_scripts=len(scripts), random_scripts=len(cases) - len(scripts),
           events=sum(len(t["events"]) for t in traces))
    c.sample({"script": cases[0][0], "events": traces[0]["events"][:25]})
    for i, ver in enumerate(v["verdicts"]):
        if not ver["ok"]:
            evs = traces[i]["events"]
            c.violation("%s (event %d: %s)" % ("; ".join(ver["why"]), ver["at"],
                                               evs[ver["at"] - 1] if ver["at"] else None),
                        {"script": cases[i][0], "base": cases[i][1], "cap": cases[i][2],
                         "events": evs[:max(ver["at"], 1)]})


if __name__ == "__main__":
    report.main(run)
