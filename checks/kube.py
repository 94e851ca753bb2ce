"""C20, C21: the Kubernetes controller (spec/KubeScale.tla, KubeCluster.tla, KubeTrace.tla)."""
import asyncio
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import fakekube, par, report, tlc, vloop  # noqa: E402
from harness.kubeworld import NS, KubeWorld, role, state  # noqa: E402


class Run(KubeWorld):
    async def step(self):
        rng, s, cfg = self.rng, self.s, self.cfg
        x = rng.random()
        clusters = [o["metadata"]["name"] for (k, _, _), o in sorted(s.objs.items()) if k == "daskclusters"]
        if not clusters or (x < 0.05 and len(self.cl) < cfg["clusters"]):
            self.new_cluster(rng.choice([None, 0, 1, 2, 3]))
            return
        full = rng.choice(clusters)
        if x < cfg["scale"]:
            self.scale(full, rng.choice([0, 1, 2, 3, 4, 5, 7]))
        elif x < cfg["scale"] + cfg["stop"]:
            if rng.random() < 0.8:
                self.deactivate(full)
            else:
                s.delete("daskclusters", NS, full)
        elif x < cfg["scale"] + cfg["stop"] + 0.04 and cfg["vanish"]:
            await self.squeeze(full)
        elif x < 0.8:
            self.kubelet()
        elif x < 0.93:
            self.disturb()
        elif x < 0.96 and cfg["restart"]:
            await self.stop(rng.random() < 0.5)
            if rng.random() < 0.5:
                for _ in range(rng.randint(1, 4)):
                    self.kubelet()
                    if rng.random() < 0.3:
                        self.scale(full, rng.randint(0, 4))
                await asyncio.sleep(rng.choice([0, 1, 30]))
            await self.start()

    async def squeeze(self, full):
        """Fewer workers are wanted, while those that are to go start, and another one is lost."""
        rng = self.rng
        self.scale(full, rng.choice([3, 4, 5]))
        await asyncio.sleep(rng.choice([2, 5]))
        self.scale(full, rng.choice([1, 2]))
        await asyncio.sleep(rng.choice([0, 0.002, 0.01, 0.05]))
        for o in self.pods("dask-worker"):
            if state(o, "dask-worker") == "pending" and rng.random() < 0.6:
                self.pod_to(o, "running")
        await asyncio.sleep(rng.choice([0.01, 0.1, 1]))
        pods = self.pods("dask-worker")
        for o in rng.sample(pods, min(len(pods), rng.choice([1, 1, 2]))):
            self.s.remove("pods", o["metadata"]["namespace"], o["metadata"]["name"])

    def kubelet(self):
        rng = self.rng
        for o in self.pods("dask-scheduler"):
            if rng.random() < 0.5:
                st = state(o, "dask-scheduler")
                if st == "pending":
                    self.pod_to(o, rng.choice(["scheduled", "running", "running", "running"]), bare=rng.random() < 0.3)
                elif st == "running" and rng.random() < self.cfg["die"]:
                    self.sched_dies(o)
            self.endpoints(o["metadata"]["labels"]["gateway.dask.org/cluster"], rng.random() < self.cfg["ready"])
        pods = self.pods("dask-worker")
        rng.shuffle(pods)
        for o in pods[:rng.randint(0, 4)]:
            st = state(o, "dask-worker")
            bare = rng.random() < 0.5
            y = rng.random()
            if st == "pending":
                if y < 0.3:
                    self.pod_to(o, "scheduled", bare=bare)
                elif y < 0.8:
                    self.pod_to(o, "running")
                elif y < 0.85:
                    self.pod_to(o, "evict", bare=bare)
                elif y < 0.85 + self.cfg["vanish"]:
                    self.s.remove("pods", o["metadata"]["namespace"], o["metadata"]["name"])
            elif st in ("running", "other"):
                if y < 0.1:
                    self.pod_to(o, "exit", code=rng.choice([0, 0, 1]), bare=rng.random() < 0.2)
                elif y < 0.15:
                    self.pod_to(o, "ending", code=0)
                elif y < 0.25:
                    self.pod_to(o, "crash", code=rng.choice([0, 1]))
                elif y < 0.3:
                    self.pod_to(o, "evict", bare=bare)
                elif y < 0.35:
                    self.s.delete("pods", o["metadata"]["namespace"], o["metadata"]["name"])
                elif st == "other" and y < 0.8:
                    self.pod_to(o, "running")
            elif st == "done" and y < 0.1:
                self.s.remove("pods", o["metadata"]["namespace"], o["metadata"]["name"])

    def sched_dies(self, o):
        rng = self.rng
        y = rng.random()
        if y < 0.3:
            self.pod_to(o, "exit", code=rng.choice([0, 1, 137]))
        elif y < 0.5:
            self.pod_to(o, "ending", code=rng.choice([0, 1]))
        elif y < 0.7:
            self.pod_to(o, "evict", bare=rng.random() < 0.5)
        else:
            self.s.delete("pods", NS, o["metadata"]["name"])

    def disturb(self):
        rng, s = self.rng, self.s
        kinds = ["pods", "daskclusters", "endpoints"]
        x = rng.random()
        if x < self.cfg["breaks"]:
            s.break_watches(rng.choice(fakekube.BREAKS), rng.choice(kinds + [None]), self.who())
        elif x < self.cfg["breaks"] + self.cfg["lag"]:
            (s.hold if rng.random() < 0.6 else s.release)(rng.choice(kinds), self.who())
        elif x < self.cfg["breaks"] + self.cfg["lag"] + self.cfg["faults"]:
            self.plan += [(rng.choice(["create", "create", "delete", "patch", "get"] + ([] if self.cfg["smooth"] else ["?", "list", "watch"])), self.fault()) for _ in range(rng.randint(1, 3))]
            self.plan = self.plan[-3:]
        elif self.cfg["quota"]:
            self.quota = rng.choice([None, 2, 3, 4])

    async def calm(self):
        s = self.s
        self.plan.clear()
        self.quota = None
        self.sick = 0
        for k in list(fakekube.KINDS):
            s.release(k, self.who())
        # no pod moves any more, schedulers finish starting
        for _ in range(4):
            for o in self.pods("dask-scheduler"):
                if state(o, "dask-scheduler") in ("pending", "other"):
                    self.pod_to(o, "running")
            await asyncio.sleep(20)
            for o in self.pods("dask-scheduler"):
                self.endpoints(o["metadata"]["labels"]["gateway.dask.org/cluster"], True)
        # lost news may take the controller ten minutes; without any, it is to act at once
        await asyncio.sleep(60 if self.cfg["smooth"] else 1500)
        self.log("calm")

    async def go(self):
        rng = self.rng
        await self.start()
        if rng.random() < 0.3:
            self.new_cluster(rng.choice([None, 2]))
        for _ in range(self.cfg["len"]):
            await self.step()
            if rng.random() < 0.7:
                await asyncio.sleep(rng.choice(self.cfg["gaps"]))
            if rng.random() < 0.02:
                await self.calm()
        await self.calm()
        await self.stop(True)
        return {"age": int(self.cfg["age"] * 1000), "period": int(self.cfg["period"] * 1000), "events": self.ev}


def case(seed):
    rng = random.Random(seed)
    out = {"seed": seed, "clusters": rng.choice([1, 1, 2, 3]), "len": rng.choice([15, 30, 60]), "stop": rng.choice([0, 0.01, 0.05]),
            "restart": rng.random() < 0.4, "die": rng.choice([0, 0.01, 0.05]), "ready": rng.choice([1, 0.8, 0.5]),
            "vanish": rng.choice([0, 0.02, 0.15]), "breaks": rng.choice([0, 0.3]), "lag": rng.choice([0, 0.3, 0.5]), "faults": rng.choice([0, 0, 0.3]),
            "quota": rng.random() < 0.2, "age": rng.choice([600, 100, 10 ** 5]), "period": rng.choice([60, 30]),
            "maxback": rng.choice([1, 30]), "parallelism": rng.choice([1, 2, 20]),
            "latency": rng.choice([[0.002], [0.001, 0.02], [0.001, 0.05, 0.5]]),
            "gaps": rng.choice([[0, 0.001, 0.01, 0.1], [0, 0.01, 1, 5], [0.5, 2, 30]]), "smooth": False, "scale": 0.25}
    if rng.random() < 0.4:
        out.update(smooth=True, breaks=0, lag=0, restart=False)
        if out["vanish"] and rng.random() < 0.5:
            out["vanish"] = 0.4
    if rng.random() < 0.3:
        out["scale"] = 0.45
    return out


def one(cfg):
    return vloop.run(Run(cfg).go)


def run(c):
    big = c.thorough
    if os.environ.get("NOMODEL"):
        pass
    elif c.prop == "C20":
        c.model(tlc.model_check("KubeScaleMC", "KubeScaleBig.cfg" if big else "KubeScaleMC.cfg"), "KubeScale")
    else:
        c.model(tlc.model_check("KubeClusterMC", "KubeClusterBig.cfg" if big else "KubeClusterMC.cfg"), "KubeCluster")
    cases = [case(c.seed * 1000000 + i) for i in range(int(os.environ.get("N", 0)) or (4000 if big else 300))]
    traces = par.pmap(one, cases, chunk=4)
    kinds = {}
    for tr in traces:
        for e in tr["events"]:
            kinds[e["e"]] = kinds.get(e["e"], 0) + 1
    c.note(events=kinds)
    c.sample({"case": cases[0], "events": traces[0]["events"][:6]})
    for i in range(0, len(traces), 1000):
        v = tlc.validate_parallel("KubeTrace", "KubeTrace.cfg", traces[i:i + 1000])
        c.traces_ok(len(v["verdicts"]), v["states"], v["distinct"])
        for cs, tr, r in zip(cases[i:], traces[i:], v["verdicts"]):
            why = [w if isinstance(w, dict) else {"what": w, "at": 0} for w in r["why"]]
            mine = sorted((w["at"], w["what"]) for w in why if w["what"].startswith(c.prop) or not w["what"].startswith("C2"))
            if mine:
                c.violation(mine[0][1], {"case": cs, "at": mine[0][0], "all": mine, "trace": tr})


if __name__ == "__main__":
    report.main(run)
