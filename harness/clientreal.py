"""User programs in processes of their own against a fake gateway on the loopback network (C25)."""
import asyncio
import json
import os
import random
import signal
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import repo, vloop  # noqa: E402,F401
from aiohttp import web  # noqa: E402
from harness.clientworld import CUR, Run  # noqa: E402

CHILD = os.path.join(os.path.dirname(os.path.abspath(__file__)), "clientchild.py")
LIMIT = 60


class Site:
    """The session a request came over, as Run.serve wants it."""

    def __init__(self):
        self.closed = self.cookie = False


class Real(Run):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.hits, self.child, self.held = {}, None, asyncio.Event()

    def ms(self):
        return int((asyncio.get_running_loop().time() - self.t0) * 1000)

    async def answer(self, request):
        o, _, rest = request.raw_path.lstrip("/").partition("/")
        CUR.set((o, 0))
        body = await request.read()
        verb = self.parse(request.method, self.base + "/" + rest, {})[0]
        site = Site()
        self.where = "%s %s" % (verb, "" if request.headers.get("Authorization") else "first")
        task = asyncio.ensure_future(self.serve(site, request.method, self.base + "/" + rest, json=json.loads(body) if body else None, headers=request.headers))
        if request.headers.get("Authorization"):
            await self.signal(verb, o)
        try:
            r = await task
        except asyncio.CancelledError:
            task.cancel()
            raise
        except Exception:
            request.transport.abort()
            return web.Response()
        h = {"Connection": "close"} if self.rng.random() < self.cfg["hangup"] else {}
        return web.Response(status=r.status, text=r.body, content_type=r.ctype, headers=h)

    async def signal(self, at, o):
        """Ctrl-C, once, at the chosen point."""
        if self.cfg["sigint"] != at or self.hits.get(at):
            return
        self.hits[at] = 1
        await asyncio.sleep(0.1)
        if self.child.returncode is None and self.doing != "exit":       # or an exit is interrupted
            if at != "idle":
                self.log("cancel", o=o or self.last, what="start" if self.doing == "start" else "close")
            self.child.send_signal(signal.SIGINT)

    async def pause(self, d):
        if self.cfg["sigint"] in ("create", "get", "delete") and not self.calm and self.where.startswith(self.cfg["sigint"]) and not self.where.endswith("first"):
            await asyncio.sleep(0.2)
        await super().pause(d)

    async def notes(self, reader, writer):
        line = await reader.readline()
        if line:
            e = json.loads(line)
            kind = e.pop("e")
            if kind not in ("idle", "pause", "rpcclose"):
                self.log(kind, **e)
            if kind in ("start", "close", "exit"):
                self.doing, self.last = kind, e.get("o")
            writer.write(b"+")
            await writer.drain()
            if kind in ("idle", "rpcclose"):
                self.spawn(self.signal(kind, ""))
        writer.close()

    async def real(self):
        cfg = self.cfg
        self.t0 = asyncio.get_running_loop().time()
        self.auth = "Basic YWxpY2U6cHc="
        self.base = self.public = "http://gw"
        for i in range(2):
            self.nc += 1
            self.clusters["c%d" % self.nc] = {"phase": "RUNNING", "n": self.nc, "dash": True}
        app = web.Application()
        app.router.add_route("*", "/{p:.*}", self.answer)
        runner = web.AppRunner(app, handler_cancellation=True, access_log=None)
        await runner.setup()
        site = web.TCPSite(runner, "127.0.0.1", 0)
        await site.start()
        port = runner.addresses[0][1]
        nsrv = await asyncio.start_server(self.notes, "127.0.0.1", 0)
        base = "http://%s:%d" % (cfg["host"], port)
        self.public = base
        arg = {"repo": repo.REPO, "base": base, "notes": nsrv.sockets[0].getsockname()[1], "proxy": "px.example:1", "steps": cfg["steps"], "goon": cfg["goon"],
               "own": cfg["own"], "rpcslow": 0.3 if cfg["sigint"] == "rpcclose" else 0}
        env = {k: v for k, v in os.environ.items() if not k.startswith("DASK_")}
        env.update(PYTHONDONTWRITEBYTECODE="1", NO_PROXY="*", DASK_CONFIG="/nonexistent")
        self.child = await asyncio.create_subprocess_exec(sys.executable, CHILD, json.dumps(arg), stdout=asyncio.subprocess.DEVNULL, stderr=asyncio.subprocess.PIPE, env=env,
                                                          preexec_fn=lambda: signal.signal(signal.SIGINT, signal.default_int_handler))
        try:
            err = (await asyncio.wait_for(self.child.communicate(), LIMIT))[1]
        except asyncio.TimeoutError:
            self.child.kill()
            err = (await self.child.communicate())[1]
            self.log("hung")
        await asyncio.sleep(0.05)
        self.calm = True
        self.log("end", kind="exit")
        await runner.cleanup()
        nsrv.close()
        return {"proxy": "px.example:1", "public": self.public, "auth": bool(cfg["auth"]), "slack": 30000, "blocking": True, "events": self.ev, "stderr": err.decode(errors="replace")[-3000:],
                "status": self.child.returncode}


def program(rng):
    steps, n, live = [], 0, []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n += 1
        o = "o%d" % n
        name = rng.choice(["", "", "", "c1", "c2"])
        steps.append(["new", o, rng.random() < (0.8 if not name else 0.3), name, rng.randint(1, 9), False])
        live.append(o)
        if rng.random() < 0.3:
            steps.append(["idle", 0.1])
        for _ in range(rng.choice([0, 0, 1, 2])):
            steps.append(["close", rng.choice(live), rng.choice(["with", "close", "del", "keep", "stop", "shutdown"])])
    return steps


def case(seed):
    rng = random.Random(seed)
    sig = rng.choice([None, None, None, "create", "get", "delete", "idle", "rpcclose"])
    steps = program(rng)
    if sig == "idle":
        steps.append(["idle", 2])
    if rng.random() < 0.4:
        steps.append([rng.choice(["raise", "exit"])])
    return {"seed": seed, "steps": steps, "sigint": sig, "goon": rng.random() < 0.3, "own": rng.random() < 0.7, "host": rng.choice(["127.0.0.1", "localhost", "localhost"]),
            "hangup": rng.choice([0, 0, 0.3, 1]), "addr": 0, "proxy": 2, "public": 0, "auth": rng.choice([0, 1]), "cookies": False, "latency": [0, 0, 0.01],
            "down": 0, "refuse": rng.choice([0, 0, 0, 0.3]), "lose": 0, "cancel": 0, "rpcfail": 0, "life": [0, 0, 0.3], "end": [0, 0.5], "len": 0, "gaps": [0]}


def one(cfg):
    loop = asyncio.SelectorEventLoop()
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(Real(cfg).real())
    finally:
        asyncio.set_event_loop(None)
        loop.close()
