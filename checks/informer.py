"""C23: the local copy of API objects (spec/Informer.tla)."""
import asyncio
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import fakekube, par, report, tlc, vloop  # noqa: E402
import aiohttp  # noqa: E402
from kubernetes_asyncio import client  # noqa: E402
from dask_gateway_server.backends.kubernetes import utils as kutils  # noqa: E402

KIND = {"pods": ("core", "list_pod_for_all_namespaces", {}),
        "endpoints": ("core", "list_endpoints_for_all_namespaces", {}),
        "daskclusters": ("custom", "list_cluster_custom_object",
                         dict(group="gateway.dask.org", version="v1alpha1", plural="daskclusters"))}
GARBAGE_LISTS = [b"", b"null", b"[]", b"5", b"{}", b"<html>bad gateway</html>", b'{"items": null, "metadata": {}}',
                 b'{"items": [{"metadata": {}}], "metadata": {"resourceVersion": "1"}}', b'{"items": [', b'{"metadata": {"resourceVersion": "7"}}']


def ver(o):
    return 0 if o is None else int(o["metadata"]["resourceVersion"])


class Run:
    def __init__(self, case):
        self.case, self.rng = case, random.Random(case["seed"])
        self.kind = case["kind"]
        self.ev = []
        self.plan = []           # faults for the next requests
        self.n = 0

    def rec(self, e):
        if e["e"] == "change" and self.mine(e["obj"]):
            self.ev.append({"e": "change", "n": e["name"], "v": e["rv"], "del": e["type"] == "DELETED"})
            self.objs[e["name"], e["rv"]] = e["obj"]

    def mine(self, o):
        return (o["metadata"].get("labels") or {}).get("gateway.dask.org/instance") == "me"

    def same(self, o):
        """The version of an object, if it says what the server said."""
        v = ver(o)
        real = self.objs.get((o["metadata"]["namespace"] + "." + o["metadata"]["name"], v))
        ok = real is not None and all((o.get("metadata") or {}).get(k) == real["metadata"].get(k) for k in ("uid", "labels", "ownerReferences"))
        ok = ok and (o.get("status") or {}).get("phase") == (real.get("status") or {}).get("phase")
        ok = ok and (o.get("spec") or {}).get("nodeName") == (real.get("spec") or {}).get("nodeName")
        return v if ok else -1

    def name(self, o):
        return o["metadata"]["namespace"] + "." + o["metadata"]["name"]

    def on_update(self, obj, old=None):
        n = self.name(obj)
        self.ev.append({"e": "update", "n": n, "v": self.same(obj), "old": ver(old), "cached": ver(self.inf.get(n))})
        self.trouble()

    def on_delete(self, obj):
        n = self.name(obj)
        self.ev.append({"e": "delete", "n": n, "v": ver(obj), "cached": ver(self.inf.get(n))})
        self.trouble()

    def trouble(self):
        if self.rng.random() < self.case["rude"]:
            raise self.rng.choice([ValueError("consumer"), KeyError("x"), StopIteration(), RuntimeError("x")])

    def policy(self, req):
        if self.plan:
            return self.plan.pop(0)
        if self.sick and self.rng.random() < self.sick:
            return self.fault(req.verb)
        return None

    def fault(self, verb):
        r = self.rng.random()
        if r < 0.4:
            return ("status", self.rng.choice([400, 401, 403, 404, 410, 429, 500, 502, 503, 504]))
        if r < 0.6:
            return ("before", self.rng.choice([OSError("refused"), aiohttp.ServerDisconnectedError(), asyncio.TimeoutError(),
                                               aiohttp.ClientPayloadError("x")]))
        if r < 0.75:
            return ("after", aiohttp.ClientPayloadError("lost"))
        if r < 0.9 and self.case["lists"]:
            return ("body", self.rng.choice(GARBAGE_LISTS))
        return ("slow", self.rng.choice([0.1, 1, 5]), 0.5)

    def change(self):
        rng, s = self.rng, self.s
        ns = rng.choice(["ns1", "ns2"])
        mine = [k for k in s.objs if k[0] == self.kind]
        x = rng.random()
        if x < 0.4 or not mine:
            self.n += 1
            nm = rng.choice(["x%d" % rng.randint(1, 4), "y%d" % self.n])
            s.create(self.kind, ns, {"metadata": {"name": nm, "labels": {"gateway.dask.org/instance": rng.choice(["me", "me", "me", "other"]),
                                                                         "k": "v%d" % rng.randint(1, 9)}}, "spec": {"containers": []}})
        elif x < 0.7:
            _, ns, nm = rng.choice(mine)
            if self.kind == "endpoints":
                s.modify(self.kind, ns, nm, lambda o: o["metadata"]["labels"].__setitem__("k", "v%d" % rng.randint(1, 9)))
            else:
                s.modify(self.kind, ns, nm, lambda o: o.setdefault("status", {}).__setitem__("phase", rng.choice(["Pending", "Running", "Failed"])))
        else:
            _, ns, nm = rng.choice(mine)
            s.remove(self.kind, ns, nm)
            if rng.random() < 0.3:
                s.create(self.kind, ns, {"metadata": {"name": nm, "labels": {"gateway.dask.org/instance": "me"}}, "spec": {"containers": []}})

    def cache(self):
        return {n: self.same(o) for n, o in self.inf.cache.items()}

    async def calm(self):
        s = self.s
        self.sick = 0
        s.holds.clear()
        self.plan.clear()
        for w in list(s.watches):
            w.wake.set()
        await asyncio.sleep(90)
        self.ev.append({"e": "calm", "cache": self.cache() if self.ready.done() else {"?": -1}})

    async def go(self):
        rng = self.rng
        self.s = s = fakekube.Server(self.case["seed"])
        s.rec, s.policy = self.rec, self.policy
        self.objs, self.sick = {}, rng.choice([0, 0, 0.3, 0.8])
        s.latency = lambda req: rng.choice([0.001, 0.01, 0.2])
        fakekube.connect(s, "i")
        for _ in range(rng.randint(0, 5)):
            self.change()
        api = client.ApiClient(client.Configuration(host=fakekube.HOST))
        group, method, kw = KIND[self.kind]
        cl = client.CoreV1Api(api_client=api) if group == "core" else client.CustomObjectsApi(api_client=api)
        self.inf = kutils.Informer(name="x", client=cl, method=method, on_update=self.on_update, on_delete=self.on_delete,
                                   method_kwargs=dict(kw, label_selector="gateway.dask.org/instance=me"))
        self.ready = asyncio.ensure_future(self.inf.start())

        def ready(_):
            if not self.ready.cancelled():
                self.ev.append({"e": "start", "cache": self.cache()})
        self.ready.add_done_callback(ready)
        for step in range(self.case["len"]):
            x = rng.random()
            if x < 0.45:
                for _ in range(rng.choice([1, 1, 1, 3])):
                    self.change()
            elif x < 0.65:
                s.break_watches(rng.choice(fakekube.BREAKS))
            elif x < 0.7:
                s.compact(self.kind)
            elif x < 0.77:
                (s.hold if rng.random() < 0.5 else s.release)(self.kind, "i")
            elif x < 0.85:
                self.plan += [self.fault("?") for _ in range(rng.randint(1, 3))]
            elif x < 0.88:
                s.down = not s.down
            elif x < 0.9:
                self.sick = rng.choice([0, 0, 0.5])
            elif x < 0.93:
                s.down = False
                await self.calm()
            if rng.random() < 0.6:
                await asyncio.sleep(rng.choice([0, 0.0005, 0.001, 0.01, 0.3, 3, 12]))
        s.down = False
        await self.calm()
        n = len(self.ev)
        await asyncio.wait_for(self.inf.stop(), 5)
        self.change()
        await asyncio.sleep(30)
        if any(e["e"] in ("update", "delete") for e in self.ev[n:]):
            self.ev.append({"e": "update", "n": "announced after the informer was stopped", "v": -1, "old": 0, "cached": 0})
        return [e for e in self.ev[:n]] + [e for e in self.ev[n:] if e["e"] != "change"]


def one(case):
    return vloop.run(Run(case).go)


def run(c):
    big = c.thorough
    c.model(tlc.model_check("InformerMC", "InformerBig.cfg" if big else "InformerMC.cfg"), "Informer")
    rng = random.Random(c.seed)
    cases = [{"seed": c.seed * 1000000 + i, "kind": ["pods", "daskclusters", "endpoints"][i % 3], "len": rng.choice([10, 25, 60]),
              "rude": rng.choice([0, 0, 0.2]), "lists": rng.random() < 0.6} for i in range(6000 if big else 500)]
    traces = par.pmap(one, cases, chunk=10)
    kinds = {k: sum(e["e"] == k for tr in traces for e in tr) for k in ("change", "update", "delete", "calm")}
    c.note(events=kinds, ways_a_stream_breaks=len(fakekube.BREAKS))
    c.sample({"case": cases[0], "events": traces[0][:5]})
    for i in range(0, len(traces), 2000):
        v = tlc.validate_parallel("InformerTrace", "InformerTrace.cfg", traces[i:i + 2000])
        c.traces_ok(len(v["verdicts"]), v["states"], v["distinct"])
        for case, tr, r in zip(cases[i:], traces[i:], v["verdicts"]):
            if not r["ok"]:
                c.violation("; ".join(map(str, r["why"])), {"case": case, "at": r["at"], "trace": tr})
    c.assumptions += ["the API server numbers changes in order, as etcd does", "a removal followed by a creation of the same name while "
                      "disconnected may be announced as one change", "a connection that hangs for ever without an error is not healthy"]


if __name__ == "__main__":
    report.main(run)
