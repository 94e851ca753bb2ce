"""C12, C13, C14: the Go proxy (spec/ProxyFollower.tla, spec/Router.tla, spec/Relay.tla)."""
import asyncio
import itertools
import json
import os
import random
import ssl
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import goproxy, report, tlc  # noqa: E402
import harness.repo  # noqa: E402,F401


# ------------------------------------------------------------------ C13: routing

WORDS = ["a", "b", "ab", "A", "clusters", "c1", "x y", "é", ".", "..", "a.b", "-", "%", "?", "0"]


def random_path(rng, words, maxlen):
    n = rng.choice(range(maxlen + 1))
    s = "/".join(rng.choice(words) for _ in range(n))
    s = ("/" if rng.random() < 0.93 else "") + s
    if rng.random() < 0.2:
        s += "/"
    if rng.random() < 0.06:
        s = s.replace("/", "//", 1)
    if rng.random() < 0.03:
        s += "//"
    return s


def small_paths(depth):
    res = [""]
    for n in range(1, depth + 1):
        res += ["/" + "/".join(x) for x in itertools.product("ab", repeat=n)]
    return res


def router_histories(c, rng):
    res = []
    probe = [["match", p or "/"] for p in small_paths(3)] + [["dump"]]
    ops = [[k, p or "/"] + (["http://t%d" % (i % 3)] if k == "put" else [])
           for i, p in enumerate(small_paths(2)) for k in ("put", "del")]
    for h in itertools.product(ops, repeat=2):
        res.append([*h, *probe])
    full = list(itertools.product(ops, repeat=3))
    for h in (full if c.thorough else rng.sample(full, 1500)):
        res.append([*h, *probe])
    # deeper tries: many routes put, some removed, everything probed
    for _ in range(400 if not c.thorough else 6000):
        paths = small_paths(3)
        h = []
        for p in rng.sample(paths, rng.randrange(2, 9)):
            h.append(["put", p or "/", "http://t%d" % rng.randrange(4)])
        for _ in range(rng.randrange(1, 6)):
            h.append(["del", rng.choice(paths) or "/"] if rng.random() < .75 else
                     ["put", rng.choice(paths) or "/", "http://t%d" % rng.randrange(4)])
            if rng.random() < .5:
                h.append(["dump"])
        res.append(h + probe)
    for _ in range(600 if not c.thorough else 8000):
        words = rng.sample(WORDS, rng.choice([2, 3, 5]))
        depth = rng.choice([2, 3, 5])
        h = []
        known = []
        for _ in range(rng.choice([10, 30])):
            o = rng.random()
            p = rng.choice(known) if known and rng.random() < .5 else random_path(rng, words, depth)
            if o < .35:
                known.append(p)
                h.append(["put", p, "http://t%d" % rng.randrange(5)])
            elif o < .55:
                h.append(["del", p])
            elif o < .6:
                h.append(["dump"])
            else:
                if rng.random() < .5:
                    p += rng.choice(["/", "/x", "x", "//", "/a/b", "b"])
                h.append(["match", p])
        res.append(h)
    return res


def router_trace(h, ans):
    ev = []
    for op, a in zip(h, ans):
        if a and a[0] == "panic":
            ev.append({"e": "panic", "what": a[1], "op": op})
            break
        p = [x for x in goproxy.tokens(op[1].replace("%", "<pct>")) if x] if len(op) > 1 else []
        if op[0] == "put":
            ev.append({"e": "put", "p": p, "v": op[2]})
        elif op[0] == "del":
            ev.append({"e": "del", "p": p})
        elif op[0] == "match":
            ev.append({"e": "match", "p": p, "v": a[0], "rest": goproxy.tokens(a[1].replace("%", "<pct>")), "has": a[2]})
        elif op[0] == "dump":
            ev.append({"e": "dump", "routes": [[k.replace("%", "<pct>").split("/")[1:], v] for k, v in a[0].items()]})
    return {"events": ev, "targets": {"-": {"path": [], "query": "", "host": "-", "dead": False}}}


GEN = """SPECIFICATION GSpec
CONSTANTS
  Segs = {"a", "b"}
  MaxLen = 3
  Targets = {"x", "y"}
  Depth = %d
INVARIANT Emit
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
"""


async def wait_mark(api, proc, n, backend):
    """Returns once the proxy has applied everything sent before."""
    path = "/__mark/%d" % n
    api.send([api.put("PATH", path, "http://127.0.0.1:%d/mark" % backend.port)])
    for k in range(1000):
        st, hs, _ = await goproxy.request(proc.http, path)
        if st == 200 and hs.get("x-label") == "mark":
            break
        await asyncio.sleep(0.005 if k < 100 else 0.02)
    api.send([api.delete("PATH", path)])


async def http_session(build, seed, nreq):
    """Requests through the real proxy while routes change."""
    rng = random.Random(seed)
    api = await goproxy.Api(keep=10000).start()
    backs = [await goproxy.Echo("h%d" % i).start() for i in range(3)]
    marker = await goproxy.Echo("mark").start()
    dead = goproxy.free_port()
    targets, urls = {"-": {"path": [], "query": "", "host": "-", "dead": False}}, {}
    for i, b in enumerate(backs):
        for path, query in (("", ""), ("/", ""), ("/T/u", ""), ("/T/", "q=1"), ("", "z")):
            k = "h%d%s?%s" % (i, path, query)
            urls[k] = "http://127.0.0.1:%d%s%s" % (b.port, path, "?" + query if query else "")
            targets[k] = {"path": goproxy.tokens(path), "query": query, "host": "h%d" % i, "dead": False}
    urls["dead"] = "http://127.0.0.1:%d" % dead
    targets["dead"] = {"path": [], "query": "", "host": "-", "dead": True}
    proc = await goproxy.ProxyProc(build.proxy, api.url(), shared=rng.random() < .5).start()
    ev = []
    words = rng.choice([["a", "b"], ["clusters", "c1", "c2", "c10", "c1x"], ["a", "b", "ab", "A", "x y", "é"]])
    known = []
    mark = 0
    try:
        for _ in range(nreq):
            r = rng.random()
            if r < .12 or not ev:
                batch = []
                for _ in range(rng.choice([1, 1, 2, 4])):
                    p = rng.choice(known) if known and rng.random() < .4 else random_path(rng, words, 3)
                    if not p.startswith("/"):
                        p = "/" + p
                    if rng.random() < .65 or not known:
                        k = rng.choice(list(urls))
                        batch.append(api.put("PATH", p, urls[k]))
                        known.append(p)
                        ev.append({"e": "put", "p": goproxy.tokens(p), "v": k})
                    else:
                        p = rng.choice(known)
                        api.routes.setdefault(("PATH", p), {})
                        batch.append(api.delete("PATH", p))
                        ev.append({"e": "del", "p": goproxy.tokens(p)})
                if rng.random() < .2:
                    api.cut("clean")
                else:
                    api.send(batch, rng.choice([1, 3]), rng.choice([None, "each"]))
                mark += 1
                await wait_mark(api, proc, mark, marker)
                continue
            base = rng.choice(known) if rng.random() < .8 else random_path(rng, words, 3)
            tail = rng.choice(["", "/", "/x", "x", "/x/y", "/x%2Fy", "/%2F", "/x%20y", "/x%2fy/z", "/%41", "/a%3Ab", "//x", "/é"])
            if not base.startswith("/"):
                base = "/" + base
            raw = (base.replace("%", "%25") + tail).replace(" ", "%20").replace("?", "%3F").replace("é", "%C3%A9")
            if rng.random() < .05:
                raw = raw.replace("/", "%2F", 2).replace("%2F", "/", 1)
            q = rng.choice(["", "", "a=1", "a=1&b=%2F", "x"])
            if rng.random() < .08:
                st, saw, same = await goproxy.websocket(proc.http, raw + ("?" + q if q else ""), [b"hello", bytes(range(200))])
                e = {"e": "http", "p": goproxy.raw_tokens(raw), "q": q, "st": st, "v": "-", "up": [], "uq": "", "xst": 101,
                     "same": same, "raw": raw, "method": "websocket"}
                if saw:
                    e.update(v=saw["label"], up=goproxy.raw_tokens(saw["path"]), uq=saw["query"])
                ev.append(e)
                continue
            method = rng.choice(["GET", "GET", "POST", "PUT", "DELETE", "HEAD", "PATCH"])
            body = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 100]))) if method in ("POST", "PUT", "PATCH") else b""
            if body and rng.random() < .05:
                body *= 3000
            hdrs = {"X-Custom": "v%d" % rng.randrange(100), "Cookie": "s=1; t=2", "Authorization": "token abc"}
            want = rng.choice([200, 200, 200, 201, 302, 404, 500])
            hdrs["X-Want-Status"] = str(want)
            st, rh, data = await goproxy.request(proc.http, raw + ("?" + q if q else ""), method, hdrs, body)
            e = {"e": "http", "p": goproxy.raw_tokens(raw), "q": q, "st": st, "v": "-", "up": [], "uq": "", "xst": want,
                 "same": True, "raw": raw, "method": method}
            if method == "HEAD":
                e["v"] = rh.get("x-label", "-")
                e["method"] = "HEAD"
                # nothing to see but status and label
                if e["v"] != "-":
                    continue
            else:
                try:
                    d = json.loads(data)
                    e.update(v=d["label"], up=goproxy.raw_tokens(d["path"]), uq=d["query"])
                    h = d["headers"]
                    e["same"] = (d["method"] == method and d["body"].encode("latin1") == body
                                 and all(h.get(k.lower()) == v for k, v in hdrs.items()))
                except (ValueError, KeyError, TypeError):
                    pass
            ev.append(e)
        if not proc.alive():
            ev.append({"e": "panic", "what": "proxy died", "op": proc.output()[-1500:].decode("latin1")})
    finally:
        proc.stop()
        await api.stop()
        for b in backs + [marker]:
            b.close()
    return {"events": ev, "targets": targets}


async def gather_limited(n, coros):
    sem = asyncio.Semaphore(n)

    async def one(c):
        async with sem:
            return await c
    return await asyncio.gather(*(one(c) for c in coros))


def run_c13(c, build):
    rng = random.Random(c.seed * 1000 + 13)
    c.model(tlc.model_check("Router", "RouterMC.cfg"), "Router(2 segments, depth 2, 2 targets)")
    if c.thorough:
        c.model(tlc.model_check("Router", "RouterBig.cfg"), "Router(2 segments, depth 3)")
    hist = router_histories(c, rng)
    traces = [router_trace(h, a) for h, a in zip(hist, build.drive(hist))]
    v = tlc.validate_parallel("RouterTrace", "RouterTrace.cfg", traces)
    c.traces_ok(len(traces), v["states"], v["distinct"])
    c.log("router package: %d histories" % len(traces))
    sessions = 10 if not c.thorough else 80
    htraces = asyncio.run(gather_limited(5, [http_session(build, c.seed * 100 + i, 150 if not c.thorough else 400)
                                             for i in range(sessions)]))
    v2 = tlc.validate_parallel("RouterTrace", "RouterTrace.cfg", htraces)
    c.traces_ok(len(htraces), v2["states"], v2["distinct"])
    c.note(router_histories=len(traces), http_sessions=len(htraces),
           http_requests=sum(1 for t in htraces for e in t["events"] if e["e"] == "http"))
    c.sample(htraces[0]["events"][:6])
    report_all(c, traces, v)
    report_all(c, htraces, v2)


def report_all(c, traces, v, extra=None):
    for i, ver in enumerate(v["verdicts"]):
        if not ver["ok"]:
            evs = traces[i]["events"]
            c.violation("%s (event %d: %s)" % ("; ".join(ver["why"]), ver["at"],
                                               str(evs[ver["at"] - 1])[:400] if ver["at"] else None),
                        {"events": evs[:max(ver["at"], 1)], "case": extra[i] if extra else None})


# ------------------------------------------------------------------ C12: following the table

class LabelTcp:
    """TCP backend that says its label and hangs up."""

    def __init__(self, label):
        self.label = label

    async def start(self):
        async def serve(reader, writer):
            try:
                await reader.read(65536)
                writer.write(self.label.encode())
                await writer.drain()
            except ConnectionError:
                pass
            writer.close()
        self.server = await asyncio.start_server(serve, "127.0.0.1", 0)
        self.port = self.server.sockets[0].getsockname()[1]
        return self


NAMES = ["a", "b", "c"]
KEYS = [("PATH", n) for n in NAMES] + [("SNI", n) for n in NAMES]


class Follow:
    """One proxy process following a fake gateway; records changes and probes."""

    def __init__(self, build, rng):
        self.build, self.rng = build, rng
        self.ev = []
        self.keys = ["%s|%s" % k for k in KEYS]

    async def start(self, api):
        self.api = api
        self.https = [await goproxy.Echo("t%d" % i).start() for i in range(3)]
        self.tcps = [await LabelTcp("t%d" % i).start() for i in range(3)]

    def target(self, kind, v):
        b = (self.https if kind == "PATH" else self.tcps)[v]
        return ("http://127.0.0.1:%d" if kind == "PATH" else self.rng.choice(["tls://127.0.0.1:%d", "tls://127.0.0.1:%d", "127.0.0.1:%d"])) % b.port

    def path(self, kind, n):
        return "/clusters/" + n if kind == "PATH" else n

    def put(self, kind, n, v):
        self.ev.append({"e": "put", "k": "%s|%s" % (kind, n), "v": "t%d" % v})
        return self.api.put(kind, self.path(kind, n), self.target(kind, v))

    def delete(self, kind, n):
        self.ev.append({"e": "del", "k": "%s|%s" % (kind, n)})
        return self.api.delete(kind, self.path(kind, n))

    def table(self):
        t = {k: "-" for k in self.keys}
        for e in self.ev:
            if e["e"] == "put":
                t[e["k"]] = e["v"]
            elif e["e"] == "del":
                t[e["k"]] = "-"
            elif e["e"] == "restart":
                t = {k: "-" for k in self.keys}
        return t

    async def probe(self, kind, n):
        try:
            if kind == "PATH":
                st, _, data = await goproxy.request(self.proc.http, "/clusters/%s/x" % n)
                return json.loads(data)["label"] if st == 200 else "-" if st == 404 else "http %d" % st
            reader, writer = await asyncio.open_connection("127.0.0.1", self.proc.tcp)
            try:
                writer.write(goproxy.client_hello(b"daskgateway-" + n.encode()))
                data = await asyncio.wait_for(reader.read(), 20)
            finally:
                writer.close()
            return data.decode("latin1") or "-"
        except (ConnectionError, asyncio.IncompleteReadError):
            return "-" if kind == "SNI" else "refused"
        except (asyncio.TimeoutError, ValueError):
            return "no answer"

    async def served(self):
        res = await asyncio.gather(*(self.probe(*k) for k in KEYS))
        return dict(zip(self.keys, res))

    async def settle(self, deadline=30):
        loop = asyncio.get_running_loop()
        t0 = loop.time()
        want = self.table()
        while True:
            got = await self.served()
            if got == want or loop.time() - t0 > deadline:
                break
            await asyncio.sleep(0.02 if loop.time() - t0 < 1 else 0.1)
        # and it stays so
        if got == want:
            await asyncio.sleep(0.05)
            got = await self.served()
        self.ev.append({"e": "settle", "served": sorted(got.items())})

    async def hammer(self, stop):
        while not stop.is_set():
            k = self.rng.choice(KEYS)
            v = await self.probe(*k)
            if not self.paused:
                self.ev.append({"e": "probe", "k": "%s|%s" % k, "v": v})
            await asyncio.sleep(0.003)

    paused = False


FAULTS_LIST = ["500", "503", "404", "401", "reset", "close", "truncated", "garbage", "short"]
FAULTS_WATCH = ["500", "503", "410", "422", "reset", "close", "empty", "badline", "html", "halfline"]


def follow_script(rng, n):
    ops = []
    for _ in range(n):
        o = rng.choices(["batch", "silent", "cut", "flist", "fwatch", "down", "restart", "settle", "sleep", "big", "lose"],
                        [10, 3, 4, 1.5, 3, 1, 1.5, 3, 4, .5, 2])[0]
        ops.append(o)
    return ops


async def follow_session(build, seed, n):
    rng = random.Random(seed)
    f = Follow(build, rng)
    api = await goproxy.Api(keep=rng.choice([2, 4, 10, 100, 5000])).start()
    await f.start(api)
    for _ in range(rng.randrange(5)):
        f.put(*rng.choice(KEYS), rng.randrange(3))
    api.faults["list"] = [rng.choice(FAULTS_LIST) for _ in range(rng.choice([0, 0, 1]))]
    f.proc = await goproxy.ProxyProc(build.proxy, api.url(), shared=rng.random() < .5).start()
    stop = asyncio.Event()
    script = follow_script(rng, n)
    try:
        await f.settle()
        hammer = asyncio.ensure_future(f.hammer(stop))
        stable = rng.sample(KEYS, 2)        # keys left alone, so that probes have something to hold on to

        def change():
            k = rng.choice([x for x in KEYS if x not in stable])
            if rng.random() < .6:
                return f.put(*k, rng.randrange(3))
            return f.delete(*k)
        for o in script:
            if o == "batch":
                evs = [change() for _ in range(rng.choice([1, 1, 2, 3, 6, 15]))]
                api.send(evs, rng.choice([1, 1, 2, 7]), rng.choice([None, "each"]))
            elif o == "silent":       # changes the proxy is not told about until its stream ends
                for _ in range(rng.choice([1, 3, 8])):
                    change()
                api.cut(rng.choice(["clean", "reset"]))
            elif o == "lose":         # the stream breaks in the middle of a line
                evs = [e for e in [change() for _ in range(rng.choice([1, 2, 5]))] if e]
                data = json.dumps({"events": evs}).encode() + b"\n"
                for s in list(api.streams):
                    s["queue"].put_nowait((data[:rng.randrange(1, len(data))], 1))
                api.cut(rng.choice(["clean", "reset"]))
            elif o == "cut":
                api.cut(rng.choice(["clean", "reset"]))
            elif o == "flist":
                api.faults["list"] = [rng.choice(FAULTS_LIST) for _ in range(rng.choice([1, 1, 2]))]
                api.faults["watch"] = [rng.choice(["500", "410", "reset"])]
                api.cut("clean")
            elif o == "fwatch":
                api.faults["watch"] = [rng.choice(FAULTS_WATCH) for _ in range(rng.choice([1, 1, 2]))]
                api.cut(rng.choice(["clean", "reset"]))
            elif o in ("down", "restart"):
                await api.stop()
                if o == "restart":
                    f.ev.append({"e": "restart"})
                    api.reset(api.next_id + rng.choice([10, 100000]))
                    for k in stable + [rng.choice(KEYS)]:
                        if rng.random() < .8:
                            f.put(*k, rng.randrange(3))
                await asyncio.sleep(rng.choice([0, .05, .7]))
                if o == "down":
                    for _ in range(rng.choice([0, 1, 4])):
                        change()
                await api.start()
            elif o == "settle":
                f.paused = True
                await asyncio.sleep(0.01)
                stop.set()
                await hammer
                f.paused = False
                await f.settle()
                stop.clear()
                hammer = asyncio.ensure_future(f.hammer(stop))
            elif o == "big":          # more than 64 KiB in one line
                api.keep = 20000
                evs = [change() for _ in range(900)]
                if rng.random() < .5:
                    api.send(evs)
                else:
                    api.cut("clean")
            await asyncio.sleep(rng.choice([0, 0, .002, .02, .2]))
        stop.set()
        await hammer
        await f.settle()
        if not f.proc.alive():
            f.ev.append({"e": "dead", "out": f.proc.output()[-1500:].decode("latin1")})
    finally:
        f.proc.stop()
        await api.stop()
        for b in f.https + f.tcps:
            b.server.close()
    # a table row per key is compared; order does not matter
    return {"events": f.ev, "keys": f.keys, "script": script, "seed": seed}


async def managed_session(build, seed, external):
    """The real gateway-side Proxy object and the real process: deaths and restarts."""
    import logging
    from aiohttp import web
    from dask_gateway_server.proxy import core
    from traitlets.config import Config
    rng = random.Random(seed)
    core._PROXY_EXE = build.proxy
    logging.getLogger("traitlets").setLevel(60)
    f = Follow(build, rng)
    await f.start(None)
    port, hport, tport = goproxy.free_port(), goproxy.free_port(), goproxy.free_port()

    class G:
        pass

    async def boot():
        app = web.Application()
        p = core.Proxy(gateway_address="127.0.0.1:%d" % port, api_token=goproxy.TOKEN, address="127.0.0.1:%d" % hport,
                       tcp_address="127.0.0.1:%d" % tport, externally_managed=external, proxy_status_period=0.2,
                       log_level="warn", config=Config())
        await p.setup(app)
        runner = web.AppRunner(app, shutdown_timeout=0.5)
        await runner.setup()
        await web.TCPSite(runner, "127.0.0.1", port, reuse_address=True).start()
        return p, runner

    async def change(p, k, v):
        kind, n = k
        kw = {"path": "/clusters/" + n} if kind == "PATH" else {"sni": n}
        if v is None:
            f.ev.append({"e": "del", "k": "%s|%s" % k})
            await p.remove_route(kind=kind, **kw)
        else:
            f.ev.append({"e": "put", "k": "%s|%s" % k, "v": "t%d" % v})
            await p.add_route(kind=kind, target=f.target(kind, v), **kw)

    ext = None
    f.proc = G()
    f.proc.http, f.proc.tcp = hport, tport
    if external:
        import subprocess
        ext = subprocess.Popen([build.proxy, "-address", "127.0.0.1:%d" % hport, "-tcp-address", "127.0.0.1:%d" % tport,
                                "-api-url", "http://127.0.0.1:%d/api/v1/routes" % port, "-log-level", "error"],
                               env={"DASK_GATEWAY_PROXY_TOKEN": goproxy.TOKEN}, stdin=subprocess.PIPE,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p, runner = await boot()
    try:
        # the gateway's own route is served under "/", so an unrouted path is answered by it: 404 all the same
        for step in range(5):
            for _ in range(rng.choice([1, 3, 6])):
                await change(p, rng.choice(KEYS), rng.choice([0, 1, 2, None]))
            o = rng.choice(["settle", "kill", "restart", "none"]) if step else rng.choice(["settle", "kill"])
            if o == "settle":
                await f.settle()
            elif o == "kill" and not external:
                p.proxy_process.kill()
                await asyncio.sleep(rng.choice([0, .3]))
            elif o == "restart":
                await p.cleanup()
                await runner.cleanup()
                if not external:
                    p.proxy_process.wait()
                f.ev.append({"e": "restart"})
                await asyncio.sleep(rng.choice([0.01, .6]))
                p, runner = await boot()
        await f.settle()
    finally:
        await p.cleanup()
        await runner.cleanup()
        if external:
            ext.kill()
            ext.wait()
        else:
            p.proxy_process.wait()
        for b in f.https + f.tcps:
            b.server.close()
    return {"events": f.ev, "keys": f.keys, "script": "managed external=%s" % external, "seed": seed}


def run_c12(c, build):
    c.model(tlc.model_check("ProxyFollower", "ProxyFollowerMC.cfg"), "ProxyFollower")
    if c.thorough:
        c.model(tlc.model_check("ProxyFollower", "ProxyFollowerBig.cfg"), "ProxyFollower(big)")
    n, m = (48, 8) if not c.thorough else (500, 60)

    async def everything():
        return await gather_limited(12, [follow_session(build, c.seed * 1000 + i, 14 if not c.thorough else 25)
                                         for i in range(n)] +
                                    [managed_session(build, c.seed * 1000 + i, i % 2 == 0) for i in range(m)])
    traces = asyncio.run(everything())
    v = tlc.validate_parallel("ProxyFollowerTrace", "ProxyFollowerTrace.cfg", traces)
    c.traces_ok(len(traces), v["states"], v["distinct"])
    c.note(sessions=n, managed_sessions=m, probes=sum(1 for t in traces for e in t["events"] if e["e"] == "probe"),
           settles=sum(1 for t in traces for e in t["events"] if e["e"] == "settle"))
    c.sample({"script": traces[0]["script"], "events": traces[0]["events"][:12]})
    report_all(c, traces, v, [{"script": t["script"], "seed": t["seed"]} for t in traces])


# ------------------------------------------------------------------ C14: TLS connections

def pattern(conn, d, start, n):
    """Byte i of a direction depends on i, so that loss and reordering show."""
    base = (conn * 7 + (0 if d == "cb" else 101)) & 0xff
    out = bytearray(n)
    for i in range(n):
        j = start + i
        out[i] = (base + j + (j >> 8) * 31 + (j >> 16) * 17) & 0xff
    return bytes(out)


_PAT = {}


def pat(conn, d, start, n):
    key = (conn, d)
    if key not in _PAT:
        _PAT[key] = pattern(conn, d, 0, 1 << 16)
    p = _PAT[key]
    return bytes(p[(start + i) & 0xffff] for i in range(n)) if n < 64 else \
        (p[start & 0xffff:] + p * (n // 65536 + 1))[:n]


class End:
    """One endpoint of a relayed connection."""

    def __init__(self, sess, conn, side, reader, writer, prefix=b""):
        self.s, self.conn, self.side = sess, conn, side
        self.reader, self.writer = reader, writer
        self.out = "cb" if side == "client" else "bc"
        self.inn = "bc" if side == "client" else "cb"
        self.prefix = prefix            # bytes at the head of direction cb (the handshake)
        self.nread = 0
        self.reading = asyncio.Event()
        self.reading.set()
        self.closed = False
        self.task = asyncio.ensure_future(self.read())

    def expect(self, d, start, n):
        h = self.s.hello[self.conn] if d == "cb" else b""
        res = h[start:start + n]
        if len(res) < n:
            k = max(0, start - len(h))
            res += pat(self.conn, d, k, n - len(res))
        return res

    async def send(self, n):
        d = self.out
        k = self.s.sent[(self.conn, d)]
        data = self.expect(d, k, n)
        self.s.sent[(self.conn, d)] = k + n
        self.s.ev.append({"e": "send", "c": self.conn, "d": d, "n": k + n})
        self.writer.write(data)

    async def read(self):
        try:
            while True:
                await self.reading.wait()
                data = await self.reader.read(1 << 18)
                if self.closed:
                    return
                if not data:
                    self.s.ev.append({"e": "eof", "c": self.conn, "d": self.inn})
                    return
                ok = data == self.expect(self.inn, self.nread, len(data))
                self.nread += len(data)
                if self.s.ev and self.s.ev[-1]["e"] == "recv" and self.s.ev[-1]["c"] == self.conn \
                        and self.s.ev[-1]["d"] == self.inn and self.s.ev[-1]["ok"]:
                    self.s.ev[-1].update(n=self.nread, ok=ok)
                else:
                    self.s.ev.append({"e": "recv", "c": self.conn, "d": self.inn, "n": self.nread, "ok": ok})
        except ConnectionError:
            if not self.closed:
                # a reset is an end without propagation of what was in flight
                self.s.ev.append({"e": "eof", "c": self.conn, "d": self.inn})

    def shut(self):
        self.s.ev.append({"e": "shut", "c": self.conn, "d": self.out})
        self.writer.write_eof()

    def close(self):
        self.s.ev.append({"e": "close", "c": self.conn, "side": self.side})
        self.closed = True
        self.writer.close()
        self.reading.set()


class RelaySession:
    def __init__(self, build, seed, shared, tls=None, nofile=None):
        self.build, self.rng, self.shared, self.tls, self.nofile = build, random.Random(seed), shared, tls, nofile
        self.ev, self.sent, self.hello = [], {}, {}
        self.incoming = {}           # label -> queue of (reader, writer)
        self.n = 0

    async def start(self):
        self.api = await goproxy.Api(keep=10000).start()
        self.mark = await goproxy.Echo("mark").start()
        self.servers, self.ports = [], {}
        for label in ("b0", "b1", "b2"):
            q = self.incoming[label] = asyncio.Queue()

            async def serve(reader, writer, q=q):
                q.put_nowait((reader, writer))
            s = await asyncio.start_server(serve, "127.0.0.1", 0, limit=2 ** 18)
            self.servers.append(s)
            self.ports[label] = s.sockets[0].getsockname()[1]
        self.proc = await goproxy.ProxyProc(self.build.proxy, self.api.url(), self.shared, tls=self.tls,
                                            nofile=self.nofile).start()
        self.marks = 0
        return self

    async def settle_routes(self):
        if self.tls:
            # no plain HTTP to ask: wait until a marker name is routed
            self.marks += 1
            name = "mark%d" % self.marks
            self.api.send([self.api.put("SNI", name, "tls://127.0.0.1:%d" % self.mark.port)])
            for _ in range(1000):
                r, w = await asyncio.open_connection("127.0.0.1", self.proc.tcp)
                w.write(goproxy.client_hello(b"daskgateway-" + name.encode()) + b"GET / HTTP/1.1\r\n\r\n")
                try:
                    await asyncio.wait_for(r.read(1), .1)
                    w.close()
                    await asyncio.sleep(.01)
                except asyncio.TimeoutError:
                    w.close()
                    return
                except ConnectionError:
                    pass
            return
        self.marks += 1
        await wait_mark(self.api, self.proc, self.marks, self.mark)

    async def put(self, name, label):
        e = self.api.put("SNI", name, "tls://127.0.0.1:%d" % self.ports[label])
        self.ev.append({"e": "put", "k": name, "v": label})
        self.api.send([e])
        await self.settle_routes()

    async def delete(self, name):
        e = self.api.delete("SNI", name)
        self.ev.append({"e": "del", "k": name})
        self.api.send([e])
        await self.settle_routes()

    async def open(self, sni, kind="tls", size=None, frag="one", web=b""):
        """Connect with a server name; returns (client, backend) ends if relayed."""
        self.n += 1
        c = self.n
        pre, name = ("daskgateway-", sni[12:]) if sni is not None and sni.startswith("daskgateway-") else ("", sni or "")
        self.ev.append({"e": "open", "c": c, "kind": kind, "pre": pre, "name": name, "sni": repr(sni),
                        "web": repr(web) if kind == "plain" else ""})
        hello = goproxy.client_hello(sni.encode("latin1") if sni is not None else None, size) if kind != "plain" else web
        if kind == "partial":
            hello = hello[:self.rng.choice([1, 3, 5, 20, len(hello) - 1])]
        self.hello[c] = hello
        for q in self.incoming.values():
            while not q.empty():
                q.get_nowait()[1].close()
        reader, writer = await asyncio.open_connection("127.0.0.1", self.proc.tcp, limit=2 ** 18)
        import socket as so
        writer.get_extra_info("socket").setsockopt(so.IPPROTO_TCP, so.TCP_NODELAY, 1)
        cuts = {"one": [], "bytes": list(range(1, min(len(hello), 60))),
                "header": [1, 3, 5, 6], "few": sorted(self.rng.sample(range(1, len(hello)), min(4, len(hello) - 1)))}[frag]
        last = 0
        for k in cuts + [len(hello)]:
            writer.write(hello[last:k])
            last = k
            if cuts:
                await asyncio.sleep(0.001)
        if kind == "partial":
            writer.write_eof()
        # where does it go?
        first = asyncio.ensure_future(reader.read(1))
        gets = {asyncio.ensure_future(q.get()): label for label, q in self.incoming.items()}
        done, _ = await asyncio.wait([first, *gets], timeout=15, return_when=asyncio.FIRST_COMPLETED)
        dest, got = "none", None
        if first in done:
            try:
                data = first.result()
            except ConnectionError:
                data = b""
            dest = "web" if data else "closed"
            # a backend may have been reached all the same
            await asyncio.sleep(0.02)
            done = {g for g in gets if g.done()}
        for g in gets:
            if g.done():
                dest, got = gets[g], g.result()
            else:
                g.cancel()
        if not first.done():
            first.cancel()
        self.ev.append({"e": "dest", "c": c, "v": dest})
        if got is None:
            writer.close()
            return None
        self.sent[(c, "cb")] = self.sent[(c, "bc")] = 0
        self.ev.append({"e": "send", "c": c, "d": "cb", "n": len(hello)})
        self.sent[(c, "cb")] = len(hello)
        return End(self, c, "client", reader, writer), End(self, c, "backend", *got)

    async def settle(self, *ends, deadline=20):
        loop = asyncio.get_running_loop()
        t0 = loop.time()
        c = ends[0].conn
        shut = {e["d"] for e in self.ev if e["e"] == "shut" and e["c"] == c} | \
               {("cb" if e["side"] == "client" else "bc") for e in self.ev if e["e"] == "close" and e["c"] == c}
        while loop.time() - t0 < deadline:
            if all(e.closed or (e.nread == self.sent[(c, e.inn)] and (e.inn not in shut or e.task.done())) for e in ends):
                break
            await asyncio.sleep(0.002 if loop.time() - t0 < 1 else .05)
        self.ev.append({"e": "settle", "c": c})

    async def stop(self):
        if not self.proc.alive():
            self.ev.append({"e": "dead", "out": self.proc.output()[-1500:].decode("latin1")})
        ev = list(self.ev)          # nothing that follows is judged
        self.proc.stop()
        await self.api.stop()
        for s in self.servers:
            s.close()
        self.mark.close()
        return {"events": ev, "shared": self.shared}


SIZES = [0, 1, 10, 1000, 5000, 70000]


async def relay_ops(s, a, b):
    """One scripted life of a relayed connection."""
    rng = s.rng
    ends = [a, b]
    for _ in range(rng.randrange(8)):
        e = rng.choice(ends)
        o = rng.random()
        if o < .6:
            await e.send(rng.choice(SIZES))
        elif o < .75:
            e.reading.clear()
        elif o < .9:
            e.reading.set()
        else:
            await asyncio.sleep(0.002)
    if rng.random() < .25:
        await rng.choice(ends).send(rng.choice([500000, 3000000]))
    for e in ends:
        e.reading.set()
    x, y = rng.sample(ends, 2)
    how = rng.choice(["half", "half", "halfboth", "close", "closeflight", "none"])
    if how in ("half", "halfboth"):
        x.shut()
        if rng.random() < .5:
            await s.settle(a, b)
        # the other side goes on sending
        for _ in range(rng.randrange(1, 4)):
            await y.send(rng.choice(SIZES + [300000]))
            if rng.random() < .3:
                await asyncio.sleep(0.003)
        if how == "halfboth":
            y.shut()
        await s.settle(a, b)
    elif how == "close":
        await s.settle(a, b)
        await x.send(rng.choice(SIZES))
        x.close()
        await s.settle(a, b)
    elif how == "closeflight":
        # what the closing side sent before closing still arrives
        await s.settle(a, b)
        y.reading.clear()
        await x.send(rng.choice([300000, 1000000]))
        await asyncio.sleep(0)
        x.close()
        await asyncio.sleep(0.02)
        y.reading.set()
        await s.settle(a, b)
    else:
        await s.settle(a, b)
    for e in ends:
        if not e.closed:
            e.closed = True
            e.writer.close()
            e.reading.set()


def near_misses(name):
    return [name, "daskgateway-", "daskgateway-" + name + ".", "daskgateway-" + name + "x", "daskgateway-" + name[:-1],
            "DASKGATEWAY-" + name, "Daskgateway-" + name, "daskgateway-" + name.upper() + "Z", "xdaskgateway-" + name,
            "daskgateway-daskgateway-" + name, "daskgateway-" + name + ".local", "dask-gateway-" + name, "daskgateway" + name,
            "daskgateway_" + name, " daskgateway-" + name, "www.example.com", None, "daskgateway-" + name + "\x00",
            "daskgateway-*", name + "-daskgateway-" + name, "daskgateway-*." + name]


async def relay_session(build, seed, shared, n):
    s = await RelaySession(build, seed, shared).start()
    rng = s.rng
    try:
        names = ["c1", "abc0", "default.1f2e", "c10"]
        for k in names[:3]:
            await s.put(k, rng.choice(["b0", "b1", "b2"]))
        for i in range(n):
            o = rng.random()
            if o < .08:
                await s.put(rng.choice(names), rng.choice(["b0", "b1", "b2"]))
                continue
            if o < .12:
                await s.delete(rng.choice(names))
                continue
            if o < .4:
                name = rng.choice(names)
                kind = rng.choice(["tls", "tls", "tls", "plain", "partial"])
                web = rng.choice([b"GET /nope HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n",
                                  b"daskgateway-" + name.encode() + b"\r\n\r\n", b"\x15\x03\x01\r\n\r\n"])
                # a web server that has answered may reset the connection if more arrives: garbage goes in one piece
                r = await s.open(rng.choice(near_misses(name)) if kind == "tls" else "daskgateway-" + name, kind,
                                 rng.choice([None, None, 600]),
                                 "one" if kind == "plain" and web[:3] != b"GET" else rng.choice(["one", "few", "header"]), web)
            else:
                r = await s.open("daskgateway-" + rng.choice(names), "tls", rng.choice([None, None, 600, 2000, 4090, 4097, 5000, 12000]),
                                 rng.choice(["one", "one", "few", "header", "bytes"]))
            if r is not None:
                await relay_ops(s, *r)
    finally:
        t = await s.stop()
    return t


async def patient_session(build, seed, gaps):
    """Connections on which nothing happens for a while, open or half closed."""
    s = await RelaySession(build, seed, False).start()
    rng = s.rng

    async def life(gap, how, a, b):
        x, y = rng.sample([a, b], 2)
        await x.send(rng.choice(SIZES[1:]))
        if how == "half":
            await y.send(rng.choice(SIZES))
            x.shut()
        elif how == "full":                 # the reader is away, and much is in flight
            y.reading.clear()
            await x.send(3000000)
            x.shut()
        await asyncio.sleep(gap)
        y.reading.set()
        await y.send(rng.choice(SIZES[1:]))
        if how == "idle":
            await x.send(rng.choice(SIZES[1:]))
        await s.settle(a, b)
        await asyncio.sleep(gap / 4)
        await y.send(300000)
        y.shut()
        await s.settle(a, b)
        for e in (a, b):
            e.closed = True
            e.writer.close()
    try:
        await s.put("c1", "b0")
        todo = []
        for gap in gaps:
            for how in ("idle", "half", "half", "full"):
                r = await s.open("daskgateway-c1")
                if r is not None:
                    todo.append(life(gap, how, *r))
        await asyncio.gather(*todo)
    finally:
        t = await s.stop()
    return t


async def exhausted_session(build, seed):
    """Running out of file descriptors must not take established connections down."""
    s = await RelaySession(build, seed, False, nofile=40).start()
    try:
        await s.put("c1", "b0")
        a, b = await s.open("daskgateway-c1")
        conns = []
        for _ in range(60):
            try:
                conns.append(await asyncio.wait_for(asyncio.open_connection("127.0.0.1", s.proc.tcp), 1))
            except (OSError, asyncio.TimeoutError):
                break
        await asyncio.sleep(.3)
        if s.proc.alive():
            await a.send(100000)
            await b.send(50000)
            await s.settle(a, b)
        for _, w in conns:
            w.close()
        await asyncio.sleep(.3)
        if s.proc.alive():
            await s.put("c2", "b1")
            r = await s.open("daskgateway-c2")
            if r is not None:
                await r[0].send(10)
                await s.settle(*r)
    finally:
        t = await s.stop()
    return t


async def https_session(build, seed, cert, key):
    """Shared port with a TLS web endpoint: other server names complete a handshake with it."""
    s = await RelaySession(build, seed, True, tls=(cert, key)).start()
    back = await goproxy.Echo("web").start()
    try:
        s.api.send([s.api.put("PATH", "/", "http://127.0.0.1:%d" % back.port)])
        await s.put("c1", "b0")
        ctx = ssl.create_default_context()
        ctx.check_hostname = False
        ctx.verify_mode = ssl.CERT_NONE
        for name in ("example.com", "gateway.local", None, "daskgatewa-c1"):
            s.n += 1
            s.ev.append({"e": "open", "c": s.n, "kind": "tls", "pre": "", "name": name or ""})
            dest = "closed"
            try:
                r, w = await asyncio.open_connection("127.0.0.1", s.proc.tcp, ssl=ctx,
                                                     server_hostname=name or "127.0.0.1", ssl_handshake_timeout=10)
                body = bytes(300000)
                w.write(b"POST /x HTTP/1.1\r\nHost: y\r\nConnection: close\r\nContent-Length: %d\r\n\r\n" % len(body) + body)
                line, _, data = await asyncio.wait_for(goproxy.read_message(r), 15)
                if json.loads(data)["body"].encode("latin1") == body:
                    dest = "web"
                w.close()
            except (OSError, asyncio.TimeoutError, ssl.SSLError, ValueError, asyncio.IncompleteReadError):
                pass
            s.ev.append({"e": "dest", "c": s.n, "v": dest})
        r = await s.open("daskgateway-c1", "tls", None, "few")
        if r is not None:
            await relay_ops(s, *r)
    finally:
        back.close()
        t = await s.stop()
    return t


def run_c14(c, build):
    c.model(tlc.model_check("Relay", "RelayMC.cfg"), "Relay")
    if c.thorough:
        c.model(tlc.model_check("Relay", "RelayBig.cfg"), "Relay(5 bytes per direction)")
    from dask_gateway_server.tls import new_keypair
    n, k = (10, 45) if not c.thorough else (80, 150)
    with tempfile.TemporaryDirectory() as tmp:
        cert, key = os.path.join(tmp, "c.crt"), os.path.join(tmp, "c.pem")
        for path, data in zip((cert, key), new_keypair("x")):
            with open(path, "wb") as f:
                f.write(data)

        async def everything():
            patient = asyncio.ensure_future(patient_session(build, c.seed, [2.5, 6, 11, 18, 32] + ([65, 130] if c.thorough else [])))
            return await gather_limited(5, [relay_session(build, c.seed * 1000 + i, i % 2 == 0, k) for i in range(n)] +
                                        [exhausted_session(build, c.seed), https_session(build, c.seed, cert, key)]) + [await patient]
        traces = asyncio.run(everything())
    v = tlc.validate_parallel("RelayTrace", "RelayTrace.cfg", traces)
    c.traces_ok(len(traces), v["states"], v["distinct"])
    c.note(sessions=len(traces), connections=sum(1 for t in traces for e in t["events"] if e["e"] == "open"),
           relayed=sum(1 for t in traces for e in t["events"] if e["e"] == "dest" and e["v"][0] == "b"),
           bytes_sent=sum(max([e["n"] for e in t["events"] if e["e"] == "send" and e["c"] == x] or [0])
                          for t in traces for x in {e["c"] for e in t["events"] if "c" in e}))
    c.sample(traces[0]["events"][:15])
    report_all(c, traces, v)


def run(c):
    try:
        build = goproxy.Build()
    except goproxy.BuildError as exc:
        raise RuntimeError("the proxy does not build: %s" % exc)
    with build:
        {"C12": run_c12, "C13": run_c13, "C14": run_c14}[c.prop](c, build)


if __name__ == "__main__":
    report.main(run)
