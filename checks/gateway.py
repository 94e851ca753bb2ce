"""C03-C10: the database-backed gateway (spec/Gateway.tla)."""
import json
import os
import random
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import dbworld, par, report, tlc, vloop  # noqa: E402

# kinds of events and how often, per property
BASE = {"start": 2, "hb": 4, "started": 5, "startfail": 1, "stopped": 4, "stop": 1, "fail": 1, "yield": 2,
        "sched": 4, "checked": 1, "wchecked": 1, "wait": 1}
PROFILES = {
    "C03": dict(w=dict(BASE, get=2, stop=2, fail=1), crash=0.2),
    "C04": dict(w=dict(BASE, startfail=2, stop=2, **{"yield": 4}), crash=0.5, bulk=0.3),
    "C05": dict(w=dict(BASE, stop=2, fail=2), crash=0.6, bulk=0.4, shutdown=0.5, commits=True),
    "C06": dict(w=dict(BASE, wait=6, stop=0.3, fail=0.2, checked=3, wchecked=3), crash=0.6, timing=True),
    "C07": dict(w=dict(BASE, hb=9, sched=8, startfail=2, stop=0.2, fail=0.1), crash=0.3, hostile=0.35),
    "C08": dict(w=dict(BASE, **{"yield": 4}), crash=2.0, commits=True, shutdown=0.3),
    "C09": dict(w=dict(BASE, start=4, stop=3, wait=4, startfail=2), crash=0.5, expire=True),
    "C10": dict(w=dict(BASE, start=4, hb=6, stop=1.5), crash=0.8, nodash=0.4),
}


def variants(rng, prof):
    cfg = {}
    cfg["par"] = rng.choice([20, 20, 20, 2, 1])
    if rng.random() < prof.get("bulk", 0.15):
        cfg["bulk"] = True
    if prof.get("timing") or rng.random() < 0.25:
        cfg.update(cst=rng.choice([12, 20, 33]), wst=rng.choice([9, 20, 31]), hbt=rng.choice([14, 24, 40]),
                   pT=rng.choice([4, 7, 8]), pC=rng.choice([5, 12, 30]), pW=rng.choice([5, 12, 30]))
    elif rng.random() < 0.5:
        # long timeouts: everything else dominates
        cfg.update(cst=200, wst=200, hbt=400, pT=20, pC=80, pW=80)
    if prof.get("expire"):
        cfg.update(pX=rng.choice([16, 30]), age=rng.choice([10, 24, 50]))
    cfg["limit"] = rng.choice([1, 2, 2, 3])
    cfg["stopAll"] = rng.random() < 0.6
    return cfg


class Driver:
    def __init__(self, rng, prof, cfg):
        self.rng, self.prof, self.cfg = rng, prof, cfg
        self.t = 1
        self.sched = {}
        self.ni = 0
        self.slow = cfg.get("slow", 0)

    def delta(self):
        r = self.rng
        if self.prof.get("timing"):
            return r.choice([0, 1, 1, 2, 3, 4, 7, 9, 13])
        if self.prof.get("expire"):
            return r.choice([0, 1, 1, 2, 5, 9, 17])
        return r.choice([0, 0, 1, 1, 1, 2, 3, 6])

    async def do(self, w, **ev):
        ev["now"] = self.t
        await w.do(ev)
        self.t += self.delta() if not self.slow else self.rng.choice([0, 0, 0, 1])

    def heartbeat(self, w, c, rows):
        r = self.rng
        mine = [x for x in rows["worder"] if rows["wk"][x]["c"] == c]
        see = lambda k: [x for x in mine if self.sched.get(x) == k]
        m = {"count": r.choice([0, 1, 1, 2, 3]), "active": see("active"), "closing": see("closing"),
             "closed": see("closed"), "addr": r.choice([7, 7, 7, 9]) if rows["cl"][c]["addr"] < 0 else rows["cl"][c]["addr"],
             "dash": rows["cl"][c]["dash"] if rows["cl"][c]["addr"] >= 0 else r.random() >= self.prof.get("nodash", 0.1)}
        if r.random() < self.prof.get("hostile", 0.05):
            k = r.choice(["huge", "unknown", "forget", "any", "overlap"])
            if k == "huge":
                m["count"] = r.choice([4, 5])
            elif k == "unknown":
                m[r.choice(["active", "closing", "closed"])] += ["ghost"]
            elif k == "forget" and m["active"]:
                m["active"] = m["active"][1:]
            elif k == "any" and mine:
                m[r.choice(["active", "closing", "closed"])] = r.sample(mine, r.randrange(1, len(mine) + 1))
            elif k == "overlap" and m["active"]:
                m[r.choice(["closing", "closed"])] += m["active"][:1]
        for x in m["closed"]:
            if self.sched.get(x) == "closed":
                self.sched[x] = "gone"
        return m

    async def slow_check(self, w, rows):
        """Build up several pending objects, then let something happen to one of them while the backend is
        still looking at all of them."""
        r, inc = self.rng, w.inc
        live = [c for c in w.users if c in rows["cl"] and rows["cl"][c]["target"] < 5]
        for k, objs in (("checked", inc.checking), ("wchecked", inc.wchecking)):
            if len(objs) < 2:
                if objs:
                    await self.do(w, e=k, dead=[o for o in objs if r.random() < 0.2])
                    return True
                continue
            if r.random() < 0.4:
                tab = rows["cl" if k == "checked" else "wk"]
                still = [o for o in objs if tab[o]["status"] == 2 and tab[o]["target"] == 3] or objs
                await self.do(w, e=k, dead=[r.choice(still)] if r.random() < 0.7 else r.sample(objs, r.randrange(0, len(objs))))
                return True
            o = r.choice(objs[:-1] if r.random() < 0.7 else objs)
            c = o if k == "checked" else rows["wk"][o]["c"]
            if r.random() < 0.7:
                if k == "wchecked":
                    self.sched[o] = r.choice(["active", "active", "active", "closed"])
                m = self.heartbeat(w, c, rows)
                m["count"] = sum(1 for x in rows["wk"].values() if x["c"] == c and x["target"] < 4)
                await self.do(w, e="hb", c=c, m=m)
            else:
                await self.do(w, **r.choice([dict(e="fail", c=c), dict(e="stop", c=c, via="user")]))
            return True
        starts = [o for o, v in inc.calls.items() if v[0] == "start"]
        if len(live) < self.slow:
            await self.do(w, e="start", c="c%d" % (len(w.users) + 1), user="al", max=-1)
        elif starts:
            await self.do(w, e="started", o=starts[0], ok=True)
        elif self.slow == 1 and all(rows["cl"][c]["status"] < 3 for c in live):
            m = self.heartbeat(w, live[0], rows)
            m.update(count=3, active=[], closing=[], closed=[])
            await self.do(w, e="hb", c=live[0], m=m)
        elif r.random() < 0.7:
            self.t += r.choice([3, 5])
            await self.do(w, e="wait")
        else:
            return False
        return True

    async def step(self, w):
        await w.at(self.t)
        r, inc = self.rng, w.inc
        rows = w.rows()
        if self.slow and len(w.users) < 5 and await self.slow_check(w, rows):
            return
        kinds = dict(self.prof["w"], crash=self.prof.get("crash", 0))
        starts = [o for o, v in inc.calls.items() if v[0] == "start"]
        stops = [o for o, v in inc.calls.items() if v[0] == "stop"]
        cl = [c for c in w.users if c in rows["cl"]]
        if not starts:
            for k in ("started", "startfail", "yield"):
                kinds.pop(k, None)
        if not stops:
            kinds.pop("stopped", None)
        if not inc.checking:
            kinds.pop("checked", None)
        if not inc.wchecking:
            kinds.pop("wchecked", None)
        if not cl:
            for k in ("stop", "fail", "get"):
                kinds.pop(k, None)
        hbable = [c for c in cl if c in w.ident and (rows["cl"][c]["status"] > 1 or c in starts)]
        if not hbable:
            kinds.pop("hb", None)
        if sum(1 for c in cl if rows["cl"][c]["target"] < 5) >= 3 or len(w.users) >= 5:
            kinds.pop("start", None)
        elif not cl:
            kinds["start"] = 30
        k = r.choices(list(kinds), list(kinds.values()))[0]
        if k == "start":
            await self.do(w, e="start", c="c%d" % (len(w.users) + 1), user=r.choice(["al", "bo"]),
                          max=r.choice([-1, 0, 1, 2, 2]))
        elif k == "stop":
            await self.do(w, e="stop", c=r.choice(cl), via=r.choice(["user", "token"]))
        elif k == "fail":
            await self.do(w, e="fail", c=r.choice(cl))
        elif k == "get":
            self.ni += 1
            await self.do(w, e="get", c=r.choice(cl), i="g%d" % self.ni)
        elif k == "hb":
            # prefer clusters that are up
            c = r.choice(hbable)
            await self.do(w, e="hb", c=c, m=self.heartbeat(w, c, rows))
        elif k == "yield":
            await self.do(w, e="yield", o=r.choice(starts), k=self.t + 1)
        elif k == "started":
            await self.do(w, e="started", o=r.choice(starts), ok=True)
        elif k == "startfail":
            await self.do(w, e="started", o=r.choice(starts), ok=False)
        elif k == "stopped":
            await self.do(w, e="stopped", o=r.choice(stops), ok=r.random() < 0.8)
        elif k in ("checked", "wchecked"):
            objs = inc.checking if k == "checked" else inc.wchecking
            dead = [o for o in objs if r.random() < 0.3]
            await self.do(w, e=k, dead=dead)
        elif k == "sched":
            ws = [x for x in rows["worder"] if x in inc.nstart or rows["wk"][x]["status"] > 1]
            if ws:
                x = r.choice(ws)
                cur = self.sched.get(x)
                self.sched[x] = {None: "active", "active": r.choice(["closing", "closed"]), "closing": "closed",
                                 "closed": "closed", "gone": "gone"}[cur]
        elif k == "wait":
            # time passes
            self.t += r.choice([1, 3, 5, 8, 11] if not self.prof.get("expire") else [5, 11, 20, 40])
            await self.do(w, e="wait")
        elif k == "crash":
            self.t += r.choice([0, 0, 0, 1, 5, 30])
            await self.do(w, e="crash")

    async def drain(self, w):
        """Ask for everything to end, and let every backend call return."""
        r = self.rng
        how = r.choice(["stop", "stop", "silence", "shutdown"]) if r.random() < self.prof.get("shutdown", 0.3) \
            else "stop"
        rows = w.rows()
        if how == "stop":
            for c in list(w.users):
                if c in rows["cl"] and r.random() < 0.9:
                    await self.do(w, e="stop", c=c, via="user")
        elif how == "shutdown":
            await self.do(w, e="shutdown")
        elif how == "silence":
            self.t += 2 * max(w.cfg["hbt"], w.cfg["cst"])
            await self.do(w, e="wait")
        for _ in range(80):
            await w.at(self.t)
            objs = list(w.inc.calls.items())
            if not objs:
                break
            o, (op, _) = r.choice(objs)
            if op == "start":
                await self.do(w, e="started", o=o, ok=r.random() < 0.7)
            else:
                await self.do(w, e="stopped", o=o, ok=r.random() < 0.8)
        if how == "shutdown" and r.random() < 0.6:
            await self.do(w, e="crash")
            for _ in range(12):
                await self.step(w)
        if self.prof.get("expire"):
            for _ in range(3):
                self.t += r.choice([w.cfg["age"] // 2, w.cfg["age"], w.cfg["pX"]])
                await self.do(w, e="wait")


async def random_trace(rng, prof, cfg, n, sink):
    w = dbworld.World(cfg)
    try:
        if prof.get("commits"):
            w.commits = []
        await w.up()
        d = Driver(rng, prof, cfg)
        for _ in range(n):
            await d.step(w)
        await d.drain(w)
        sink.append((w, w.commits))
        return w.trace()
    finally:
        w.close()


async def script_trace(rng, prof, cfg, script, sink):
    w = dbworld.World(cfg)
    try:
        if prof.get("commits"):
            w.commits = []
        await w.up()
        d = Driver(rng, prof, cfg)
        for ev in script:
            ev = dict(ev)
            await w.at(ev["now"])
            if "o" in ev and (ev["o"] not in w.inc.calls or (w.inc.calls[ev["o"]][0] == "start") != (ev["e"] in ("yield", "started"))):
                break
            if ev["e"] == "checked" and not w.inc.checking or ev["e"] == "wchecked" and not w.inc.wchecking:
                break
            if ev["e"] == "hb" and (ev["c"] not in w.ident or not all(
                    x in w.rnames for k in ("active", "closing", "closed") for x in ev["m"][k])):
                break
            if ev["e"] in ("stop", "fail") and ev["c"] not in w.ident:
                break
            await w.do(ev)
            d.t = ev["now"]
        d.t += 1
        if w.down_task is None:
            await d.drain(w)
        sink.append((w, w.commits))
        return w.trace()
    finally:
        w.close()


async def recovery_trace(rng, prof, parent, now, image):
    w = await dbworld.World.recovered(parent, now, image)
    try:
        d = Driver(rng, prof, w.cfg)
        d.t = now
        await d.do(w, e="wait")
        for _ in range(rng.choice([0, 3, 8])):
            await d.step(w)
        await d.drain(w)
        return w.trace()
    finally:
        w.close()


def scripts(c, prof, cfg, num, steps):
    kinds = []
    for k, x in dict(prof["w"], crash=prof.get("crash", 0), shutdown=0.1).items():
        if k != "get":
            kinds += [k] * int(round(x * 4))
    fd, path = tempfile.mkstemp(suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump({"cfg": dict(dbworld.World.DEFAULT, **cfg), "clusters": 2, "steps": steps, "kinds": kinds}, f)
    try:
        r, s = tlc.behaviours("GatewayGen", "GatewayGen.cfg", num, 3000, c.seed + int(c.prop[1:]) * 7 + len(kinds),
                              env={"GEN_FILE": path})
    finally:
        os.unlink(path)
    c.transitions += r.states
    return s


def record(args):
    prop, (kind, cfg, what, seed), nrec = args
    prof, rng, sink = PROFILES[prop], random.Random(seed), []
    fn = random_trace if kind == "rand" else script_trace
    traces = [vloop.run(fn, rng, prof, cfg, what, sink)]
    rec = []
    w, commits = sink[0]
    for now, img in rng.sample(commits or [], min(len(commits or []), nrec)):
        rec.append(vloop.run(recovery_trace, rng, prof, w, now, img))
    return traces, rec


MODELS = {  # quick design models per property; the big ones are for the thorough tier
    "C03": ["GatewayQ2.cfg"], "C04": ["GatewayQ2.cfg"], "C05": ["GatewayL1.cfg"], "C06": ["GatewayQ4.cfg"],
    "C07": ["GatewayQ2.cfg"], "C08": ["GatewayQ3.cfg"], "C09": ["GatewayQ4.cfg"], "C10": ["GatewayQ3.cfg"]}


def run(c):
    prof = PROFILES[c.prop]
    rng = random.Random(c.seed * 7919 + int(c.prop[1:]))
    for m in MODELS[c.prop] + (["GatewayQ1.cfg", "GatewayBig.cfg"] if c.thorough else []):
        c.model(tlc.model_check("GatewayMC", m, timeout=1500, heap="8g"), m)
    nrand, nscript = (160 if c.prop == "C06" else 200, 60) if not c.thorough else (2500, 800)
    jobs = []
    for i in range(nrand):
        jobs.append(("rand", variants(rng, prof), rng.choice([10, 25, 45]), rng.random()))
    nsc = 0
    for k in range(3 if not c.thorough else 10):
        cfg = variants(rng, prof)
        for s in scripts(c, prof, cfg, nscript // (3 if not c.thorough else 10), 35):
            jobs.append(("script", cfg, s, rng.random()))
            nsc += 1
    if c.prop == "C06":
        for i in range(40 if not c.thorough else 400):
            # slow status checks over several objects: three clusters, or three workers of one
            jobs.append(("rand", dict(variants(rng, prof), par=20, cst=200, wst=200, hbt=400, pT=20, pC=rng.choice([4, 9]),
                                      pW=rng.choice([5, 8]), slow=3 if i % 3 == 0 else 1), rng.choice([14, 30]), rng.random()))
    share = 150 if not c.thorough else 3000
    traces, nrec = [], 0
    for t, rec in par.pmap(record, [(c.prop, j, 1 + share // len(jobs)) for j in jobs]):
        traces += t + rec
        nrec += len(rec)
    c.log("recorded %d traces" % len(traces))
    v = tlc.validate_parallel("GatewayTrace", "GatewayTrace.cfg", traces)
    c.traces_ok(len(traces), v["states"], v["distinct"])
    c.note(tlc_scripts=nsc, random_scripts=nrand, crash_points_recovered=nrec,
           events=sum(len(t["events"]) for t in traces))
    c.sample([{k: x for k, x in e.items() if k != "snap"} for e in traces[0]["events"]][:12])
    for i, ver in enumerate(v["verdicts"]):
        if not ver["ok"]:
            evs = traces[i]["events"][:max(ver["at"], 1)]
            c.violation("%s (event %d: %s)" % ("; ".join(ver["why"]), ver["at"],
                                               {k: x for k, x in evs[-1].items() if k != "snap"} if evs else None),
                        dict(traces[i], events=evs))


if __name__ == "__main__":
    report.main(run)
