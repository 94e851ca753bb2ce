"""C26: secrets in the database, and the keys they are kept under (spec/Secrets.tla)."""
import asyncio
import base64
import itertools
import os
import random
import shutil
import sqlite3
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import dbworld, par, report, tlc, vloop  # noqa: E402
from dask_gateway_server import app as _app, models, tls as _tls  # noqa: E402
from dask_gateway_server.backends import db_base  # noqa: E402
from traitlets.config import Config  # noqa: E402

MADE = []


def keypair(sni):
    """As new_keypair, without the cost."""
    pem = lambda kind, n: (b"-----BEGIN %s-----\n" % kind + b"\n".join(  # noqa: E731
        base64.b64encode(random.randbytes(48)) for _ in range(n)) + b"\n-----END %s-----\n" % kind)
    r = pem(b"CERTIFICATE", 12), pem(b"RSA PRIVATE KEY", 25)
    MADE.append(r)
    return r


class Quick(db_base.DBBackendBase):
    async def do_start_cluster(self, cluster):
        self.world.made(cluster)
        yield {"job": 1}

    async def do_stop_cluster(self, cluster):
        pass

    async def do_check_clusters(self, clusters):
        return [True] * len(clusters)

    async def do_start_worker(self, worker):
        yield {}

    async def do_stop_worker(self, worker):
        pass

    async def do_check_workers(self, workers):
        return [True] * len(workers)


class Run:
    def __init__(self, cfg):
        self.cfg, self.rng = cfg, random.Random(cfg["seed"])
        self.keys = {}
        self.secrets, self.names, self.ev = {}, {}, []
        self.dir = tempfile.mkdtemp(prefix="secrets-")
        self.path = os.path.join(self.dir, self.rng.choice(["gw.sqlite", "gw.sqlite", "db", "in :memory:.db", ":memory:", "sqlite", "memory.db"]))
        self.opts = self.rng.choice(["", "", "", "?timeout=5", "?timeout=7&cache=private"])
        self.gw = None
        self.env = None

    def made(self, cluster):
        if cluster.name in self.names:
            return
        n = self.names[cluster.name] = len(self.names) + 1
        self.secrets[n] = (cluster.token, cluster.tls_cert, cluster.tls_key)

    # ---------------------------------------------------------------- keys
    def raw(self, k):
        if k not in self.keys:
            b = random.Random(self.cfg["seed"] * 1000 + k).randbytes(32)
            # such that raw bytes can be given through the environment
            self.keys[k] = bytes(c if c not in b"; \t\n\r\x0b\x0c\0" else 65 for c in b)
        return self.keys[k]

    def form(self, k, env):
        """A way of writing key k; 0: something that is no key."""
        rng = self.rng
        if k == 0:
            bad = [base64.b64encode(rng.randbytes(31)).decode(), base64.b64encode(rng.randbytes(33)).decode(), "secret", "x" * 44, base64.b64encode(rng.randbytes(32)).decode()[:43],
                   "é" * 32, rng.randbytes(16).hex()[:31]]
            return rng.choice(bad + ([] if env else ["", b""]))
        raw = self.raw(k)
        f = rng.choice(["std", "std", "url", "raw", "bytes"])
        if f == "std":
            return base64.b64encode(raw).decode()
        if f == "url":
            return base64.urlsafe_b64encode(raw).decode()
        return raw if f == "raw" else base64.b64encode(raw)

    def config(self, keys, path):
        rng, c = self.rng, Config()
        c.DaskGateway.backend_class = Quick
        c.Proxy.externally_managed = True
        c.DaskGateway.address = "127.0.0.1:65535"
        c.DaskGateway.config_file = os.path.join(self.dir, "none.py")
        b = c.DBBackendBase
        if path:
            b.db_url = rng.choice(["sqlite:///" + path, "sqlite+pysqlite:///" + path, "sqlite:////" + path]) + self.opts
        elif rng.random() < 0.7:
            b.db_url = rng.choice(["sqlite://", "sqlite:///:memory:"])
        b.stop_clusters_on_shutdown = not path or self.cfg["stopall"]
        b.db_cluster_max_age, b.db_cleanup_period = 100, 10
        env = rng.random() < 0.4
        os.environb.pop(b"DASK_GATEWAY_ENCRYPT_KEYS", None)
        if env:
            parts = [self.form(k, True) for k in keys]
            parts = [p.encode() if isinstance(p, str) else p for p in parts]
            v = rng.choice([b";", b" ; ", b";;"]).join(parts) + rng.choice([b"", b";", b"\n"])
            if keys or rng.random() < 0.5:
                os.environb[b"DASK_GATEWAY_ENCRYPT_KEYS"] = v
        elif keys or rng.random() < 0.5:
            b.db_encrypt_keys = [self.form(k, False) for k in keys]
        return c

    # ---------------------------------------------------------------- gateways
    async def up(self, keys, path):
        """-> gateway or None"""
        before = asyncio.all_tasks()
        site, _app.web.TCPSite = _app.web.TCPSite, dbworld._Site
        loop = asyncio.get_running_loop()
        add, loop.add_signal_handler = loop.add_signal_handler, lambda *a: None
        err, sys.stderr = sys.stderr, open(os.devnull, "w")
        gw = None
        try:
            gw = _app.DaskGateway(config=self.config(keys, path))
            gw.initialize([])
            gw.backend.world = self
            await gw.setup()
            await vloop.settle(20)
            return gw
        except (Exception, SystemExit):
            await self.kill(gw, before)
            return None
        finally:
            sys.stderr.close()
            sys.stderr = err
            loop.add_signal_handler = add
            _app.web.TCPSite = site
            os.environb.pop(b"DASK_GATEWAY_ENCRYPT_KEYS", None)

    async def kill(self, gw, keep=()):
        me = asyncio.current_task()
        for t in asyncio.all_tasks():
            if t is not me and t not in keep:
                t.cancel()
        await vloop.settle(5)
        try:
            await gw.backend.session.close()
            gw.backend.db.db.dispose()
        except Exception:
            pass

    async def sees(self, gw):
        good, odd = [], []
        for name, n in self.names.items():
            c = await gw.backend.get_cluster(name)
            if c is not None:
                (good if (c.token, c.tls_cert, c.tls_key) == self.secrets[n] else odd).append(n)
        return good, odd

    def scan(self):
        data = {}
        for root, _, files in os.walk(self.dir):
            for f in files:
                with open(os.path.join(root, f), "rb") as fh:
                    data[f] = fh.read()
        leaks = []
        for n, (token, cert, key) in self.secrets.items():
            lines = [s for s in key.split(b"\n") if s and not s.startswith(b"--")]
            for what, s in [("token", token.encode())] + [("key", s) for s in lines[:2] + lines[-1:]]:
                forms = [s, s.hex().encode(), s.decode().encode("utf-16-le"), s[::-1]] + [base64.b64encode(b"\0" * i + s)[4:-4] for i in range(3)] + \
                    [base64.urlsafe_b64encode(b"\0" * i + s)[4:-4] for i in range(3)]
                if what == "key":
                    forms.append(base64.b64decode(s))
                for f, d in data.items():
                    if any(x in d for x in forms):
                        leaks.append([n, what, f])
        return leaks

    # ---------------------------------------------------------------- one history
    def lists(self, cur):
        """What keys to start with next."""
        rng, r = self.rng, self.rng.random()
        if r < 0.4 or not cur:
            cur = [rng.randint(1, 6)] + [k for k in cur]
            return cur if rng.random() < 0.8 else rng.sample(cur, len(cur))
        if r < 0.6:
            return cur[:rng.randint(1, len(cur))]
        if r < 0.75:
            return rng.sample(cur, len(cur))
        if r < 0.85:
            return [rng.randint(1, 6) for _ in range(rng.randint(0, 3))]
        if r < 0.93:
            cur = list(cur)
            cur.insert(rng.randint(0, len(cur)), 0)
            return cur
        return []

    async def go(self):
        cfg, rng = self.cfg, self.rng
        db_base.new_keypair = _tls.new_keypair = keypair
        disk, alive, cur = cfg["disk"], {}, []
        try:
            for _ in range(cfg["len"]):
                keys = self.lists(cur)
                gw = await self.up(keys, self.path if disk else "")
                ok = gw is not None
                good, odd = await self.sees(gw) if ok else ([], [])
                if not disk:
                    good = odd = []
                self.ev.append({"e": "start", "keys": keys, "ok": ok, "sees": good, "odd": odd})
                if not disk:
                    alive = {}
                if ok and disk and set(good) != set(alive):
                    break                # judged; what follows has no meaning
                if not ok:
                    if disk and keys and 0 not in keys and cur and rng.random() < 0.5:
                        pass             # the keys may be right again next time
                    continue
                cur = keys
                user = models.User(name="alice")
                for _ in range(rng.randint(0, 4)):
                    r = rng.random()
                    if r < 0.6:
                        name = await gw.backend.start_cluster(user, {})
                        await vloop.settle(20)
                        n = self.names[name]
                        alive[n] = name
                        self.ev.append({"e": "new", "n": n})
                        if rng.random() < 0.3:
                            await gw.backend.on_cluster_heartbeat(name, {"scheduler_address": "tls://1.2.3.4:5", "dashboard_address": "", "api_address": "http://1.2.3.4:6",
                                                                         "count": 0, "active_workers": [], "closing_workers": [], "closed_workers": []})
                    elif alive:
                        for n in rng.sample(sorted(alive), rng.randint(1, len(alive))):
                            await gw.backend.stop_cluster(alive[n])
                    if r > 0.85:
                        await asyncio.sleep(rng.choice([1, 30, 130]))
                    for n in sorted(alive):
                        if await gw.backend.get_cluster(alive[n]) is None:
                            del alive[n]
                            self.ev.append({"e": "gone", "n": n})
                    if rng.random() < 0.5:
                        self.ev.append({"e": "scan", "leaks": self.scan()})
                if disk:
                    await self.probe(cur)
                if rng.random() < 0.5:
                    await self.kill(gw)
                else:
                    await gw.cleanup()
                    await self.kill(gw)
                self.ev.append({"e": "stop"})
                self.ev.append({"e": "scan", "leaks": self.scan()})
                # a stopping gateway may have dropped expired records
                if disk:
                    left = {r[0] for r in sqlite3.connect(self.path).execute("select name from clusters")}
                    for n in sorted(alive):
                        if alive[n] not in left:
                            del alive[n]
                            self.ev.append({"e": "gone", "n": n})
            return {"disk": disk, "events": self.ev}
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    async def probe(self, cur):
        """What can be read with other keys, on a copy."""
        rng = self.rng
        for _ in range(rng.randint(0, 2) if cur else 0):
            keys = rng.choice([[rng.choice(cur)], [cur[0]], [7], rng.sample(cur, rng.randint(1, len(cur))), [7] + cur, cur + [7], []])
            path = os.path.join(self.dir, "copy of " + os.path.basename(self.path))
            src, dst = sqlite3.connect(self.path), sqlite3.connect(path)
            src.backup(dst)
            src.close(), dst.close()
            before = asyncio.all_tasks()
            gw = await self.up(keys, path)
            good, odd = await self.sees(gw) if gw else ([], [])
            self.ev.append({"e": "probe", "keys": keys, "ok": gw is not None, "sees": good, "odd": odd})
            if gw:
                await self.kill(gw, before)
            os.remove(path)


def case(seed):
    rng = random.Random(seed)
    return {"seed": seed, "disk": rng.random() < 0.85, "len": rng.choice([3, 6, 10]), "stopall": rng.random() < 0.3}


def one(cfg):
    random.seed(cfg["seed"])
    return vloop.run(Run(cfg).go)


def run(c):
    big = c.thorough
    if not os.environ.get("NOMODEL"):
        c.model(tlc.model_check("SecretsMC", "SecretsBig.cfg" if big else "SecretsMC.cfg"), "Secrets")
    n = int(os.environ.get("N", 0)) or (4000 if big else 400)
    cases = [case(c.seed * 1000000 + i) for i in range(n)]
    traces = par.pmap(one, cases, chunk=4)
    kinds = {}
    for tr in traces:
        for e in tr["events"]:
            k = e["e"] + ({True: " accepted", False: " refused"}.get(e.get("ok"), ""))
            kinds[k] = kinds.get(k, 0) + 1
    c.note(events=kinds)
    c.sample({"case": cases[0], "events": traces[0]["events"][:6]})
    v = tlc.validate_parallel("SecretsTrace", "SecretsTrace.cfg", traces)
    c.traces_ok(len(v["verdicts"]), v["states"], v["distinct"])
    for cs, tr, r in zip(cases, traces, v["verdicts"]):
        why = [w if isinstance(w, dict) else {"what": w, "at": 0} for w in r["why"]]
        if why:
            f = min(why, key=lambda w: w["at"])
            c.violation(f["what"], {"case": cs, "at": f["at"], "all": why, "trace": tr})


if __name__ == "__main__":
    report.main(run)
