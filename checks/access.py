"""C15, C16: who may do what through the API (spec/AccessRules.tla, Access.tla)."""
import asyncio
import os
import random
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import par, report, tlc, vloop  # noqa: E402
from harness.accessworld import AccessWorld  # noqa: E402

ALL = ["pending", "running", "stopping", "stopped", "failed"]
USERS = ["alice", "bob", "Alice", "alice ", "root", ""]
NOHUB = {"st": 200, "kind": "-", "name": "-", "colon": False, "scopes": []}
NOCRED = {"kind": "none", "user": "-", "pw": "-", "tok": "-"}


class Run:
    def __init__(self, case):
        self.case, self.cfg = case, case["cfg"]
        self.rng = random.Random(case["seed"])
        self.ev, self.n, self.t = [], 0, 0
        self.cookie_ids, self.cookies = {}, {}     # value -> id, id -> value
        self.latest = {}                           # user -> cookie id
        self.held = {}                             # i -> (task, event)
        self.gates = {}
        self.hubtoks = {}

    # ------------------------------------------------------------- credentials
    def header(self, cred):
        k = cred["kind"]
        w = self.w
        if k == "none":
            return None
        if k == "basic":
            return AccessWorld.basic_header(cred["user"], cred["pw"])
        if k == "ticket":
            return "Negotiate ticket:" + cred["user"]
        if k == "hub":
            return "jupyterhub " + cred["tok"]
        if k == "token":
            if cred["tok"] == "<proxy>":
                return "token " + w.gw.backend.proxy.api_token
            if cred["tok"] in w.ident:
                return "token " + w.token(cred["tok"])
            return "token " + "0" * 32
        return cred["raw"]

    def malformed(self):
        w, rng = self.w, self.rng
        tok = w.token(rng.choice(sorted(w.ident))) if w.ident else "f" * 32
        ok = AccessWorld.basic_header("alice", self.cfg["pw"] or "x")
        raw = rng.choice([
            "", "Basic", "Basic ", "basic " + ok[6:], "Bearer " + ok[6:], "Basic abc", "Basic /////w==",
            "Basic YWxpY2U=", ok[6:], " " + ok, "Negotiate", "Negotiate junk", "negotiate ticket:alice",
            "Negotiate  ticket:alice", "Basic ticket:alice", "jupyterhub", "jupyterhub ", "token", "token ",
            "token " + tok[:-1], "token " + tok + "0", "Token " + tok, tok, "Bearer " + tok, "token  " + tok,
            "token None", "JupyterHub good-alice", "token good-alice", "Negotiate good-alice"])
        return dict(NOCRED, kind="junk", raw=raw)

    def creds(self):
        """Credentials of the configured kind: valid or subtly not."""
        rng, auth = self.rng, self.cfg["auth"]
        x = rng.random()
        user = rng.choice(self.case["users"])
        if x < 0.12:
            return dict(NOCRED)
        if x < 0.22:
            return self.malformed()
        if x < 0.4:
            c = rng.choice(sorted(self.w.ident) + ["bogus", "<proxy>"])
            return dict(NOCRED, kind="token", tok=c)
        if auth == "simple":
            pw = self.cfg["pw"]
            if not pw:
                return dict(NOCRED, kind="basic", user=user, pw=rng.choice(["", "x", "a:b"]))
            bad = [pw + "x", pw[:-1], "", pw.upper(), " " + pw, pw + ":", "x:" + pw, "None"]
            bad = [b for b in bad if b != pw]
            return dict(NOCRED, kind="basic", user=user, pw=pw if rng.random() < 0.6 else rng.choice(bad))
        if auth == "kerberos":
            return dict(NOCRED, kind="ticket" if rng.random() < 0.75 else "basic", user=user, pw="x")
        return dict(NOCRED, kind="hub", tok=rng.choice(sorted(self.hubtoks) + ["unknown", ""]))

    def setup_hub(self):
        rng, svc = self.rng, self.cfg["service"]
        good = ["access:services!service=" + svc]
        scopes = [[], good, ["access:services"], ["access:servers"], ["access:services!service=" + svc + "x"],
                  ["access:services!service="], ["read:users", *good], ["services"], ["access"]]
        toks = {"good-" + u: {"st": 200, "name": u, "kind": "user", "scopes": good, "groups": ["g"], "admin": u == "root"}
                for u in self.case["users"]}
        toks["svc"] = {"st": 200, "name": self.case["users"][0], "kind": "service", "scopes": good}
        toks["colon"] = {"st": 200, "name": "service:" + self.case["users"][0], "kind": "user", "scopes": good}
        toks["noscope"] = {"st": 200, "name": self.case["users"][0], "kind": "user"}
        for i in range(4):
            toks["s%d" % i] = {"st": 200, "name": rng.choice(self.case["users"]), "kind": rng.choice(["user", "user", "service"]),
                               "scopes": rng.choice(scopes), "admin": rng.random() < .5}
        self.hubtoks = toks
        self.w.hub.update({k: dict(v) for k, v in toks.items()})

    def shake_hub(self):
        k = self.rng.choice(sorted(self.hubtoks))
        if self.rng.random() < 0.6:
            self.w.hub[k] = {"st": self.rng.choice([0, -1, 400, 401, 403, 404, 429, 500, 502, 503])}
        else:
            self.w.hub[k] = dict(self.hubtoks[k])

    def hub_says(self, cred):
        if cred["kind"] != "hub":
            return NOHUB
        r = self.w.hub.get(cred["tok"], {"st": 403})
        return {"st": r["st"], "kind": r.get("kind", "-"), "name": r.get("name", "-"), "colon": ":" in r.get("name", ""),
                "scopes": r.get("scopes", [])}

    def any_cookie(self):
        rng = self.rng
        x = rng.random()
        if not self.cookies or x < self.case["nocookie"]:
            return "", None
        if x < self.case["nocookie"] + 0.08:
            v = self.cookies[rng.choice(sorted(self.cookies))]
            bad = rng.choice(["0" * 32, v[:-1], v.upper() if v.upper() != v else "X", v + "0", "alice", "None",
                              v[:-1] + ("0" if v[-1] != "0" else "1"), ""])
            return "forged", bad
        i = rng.choice(sorted(self.cookies) if rng.random() < 0.5 else sorted(self.latest.values()))
        return i, self.cookies[i]

    # ------------------------------------------------------------- requests
    def body(self, ep, k):
        rng = self.rng
        if ep == "create":
            return rng.choice([({}, True), ({"cluster_options": {}}, True), ({"cluster_options": {"max": 2}}, True),
                               ({"cluster_options": None}, True), ({"cluster_options": {"nope": 1}}, False),
                               ({"cluster_options": {"max": "many"}}, False), (b"{", False),
                               ({"cluster_options": {"env": "z"}, "username": "bob", "user": "bob", "name": "c1"}, True)])
        if ep == "scale":
            return rng.choice([({"count": 1}, True), ({"count": 0}, True), ({"count": 7}, True), ({"count": -1}, False),
                               ({}, False), (b"x", False)])
        if ep == "adapt":
            return rng.choice([({"minimum": 0, "maximum": 2}, True), ({}, True), ({"active": False}, True), (b"", False)])
        if ep == "heartbeat":
            if k in self.w.ident:
                return self.w.heartbeat_msg(k), True
            return {}, False
        return None, True

    async def request(self, ep, k, cred, cookie=("", None), body=None, hold=False, query=""):
        w = self.w
        self.n += 1
        i = "r%d" % self.n
        name = w.rnames.get(k, k)
        base = "/api/v1/clusters/"
        method, path = {
            "health": ("GET", "/api/health"), "version": ("GET", "/api/version"), "options": ("GET", "/api/v1/options"),
            "list": ("GET", base), "create": ("POST", base), "get": ("GET", base + name), "delete": ("DELETE", base + name),
            "scale": ("POST", base + name + "/scale"), "adapt": ("POST", base + name + "/adapt"),
            "heartbeat": ("POST", base + name + "/heartbeat"), "routes": ("GET", "/api/v1/routes")}[ep]
        filt = ["pending", "running"]
        valid = True
        if ep == "list" and query:
            path += "?status=" + query
            filt = query.lower().split(",")
            valid = all(f in ALL for f in filt)
        elif ep == "get" and query:
            path += "?" + query
        if body is None:
            body = self.body(ep, k)
        body, bvalid = body
        valid = valid and bvalid
        h = {}
        hdr = self.header(cred)
        if hdr is not None:
            h["Authorization"] = hdr
        self.ev.append({"e": "ask", "i": i, "now": w.now(), "cookie": cookie[0] or "-"})
        e = {"e": "done", "i": i, "ep": ep, "k": k, "cred": {x: cred[x] for x in NOCRED}, "filter": filt, "valid": valid,
             "before": w.table()}
        w.msgs = []
        if hold:
            self.gates[cred["tok"]] = asyncio.get_running_loop().create_future()
        task = asyncio.ensure_future(w.req(method, path, h, cookie[1], body))
        for _ in range(40):
            await asyncio.sleep(0)
        if hold and not task.done():
            self.held[i] = (task, e, cred)
            return i
        self.gates.pop(cred["tok"], None)
        await asyncio.wait([task], timeout=30)
        if not task.done():
            task.cancel()
            raise AssertionError("no answer to %s %s" % (method, path))
        await self.finish(e, task, cred)
        return i

    async def release(self, i):
        task, e, cred = self.held.pop(i)
        self.w.msgs = []
        e["before"] = self.w.table()
        g = self.gates.pop(cred["tok"], None)
        if g is not None and not g.done():
            g.set_result(None)
        await asyncio.wait([task], timeout=30)
        await self.finish(e, task, cred)

    async def finish(self, e, task, cred):
        w = self.w
        r = task.result()
        await vloop.settle(40)
        e["now"] = w.now()
        e["hub"] = self.hub_says(cred)
        e["st"] = r.status
        e["after"] = w.table()
        e["msgs"] = [{"k": m["k"], "tok": m["tok"]} for m in w.msgs]
        # (the scan above names new clusters)
        names, secrets = [], []
        d = r.json if isinstance(r.json, dict) else {}
        if r.status < 400:
            if e["ep"] == "list":
                names = [w.names.get(n, n) for n in d]
            elif e["ep"] in ("get", "create"):
                names = [w.names.get(d.get("name"), "?")]
        text = r.text + repr(dict(r.headers)) + str(r.cookies or "")
        for c, ident in w.ident.items():
            for kind, v in (("token", ident[2]), ("cert", ident[3].decode()), ("key", ident[4].decode())):
                if re.search(re.escape(v) + r"(?!\d)", text):
                    secrets.append({"kind": kind, "c": c})
        if w.gw.backend.proxy.api_token in text:
            secrets.append({"kind": "token", "c": "c1"})
        e["names"], e["secrets"] = names, secrets
        v = r.cookies["dgc"].value if r.cookies and "dgc" in r.cookies else ""
        if v and v not in self.cookie_ids:
            i = "s%d" % (len(self.cookie_ids) + 1)
            self.cookie_ids[v], self.cookies[i] = i, v
        e["set"] = self.cookie_ids[v] if v else ""
        if v and e["cred"]["user"] != "-":
            self.latest[e["cred"]["user"]] = e["set"]
        elif v:
            self.latest[e["cred"]["tok"]] = e["set"]
        self.ev.append(e)

    async def evolve(self):
        """The world of the clusters moves on."""
        w = self.w
        cs = sorted(w.ident)
        if not cs:
            return
        x = self.rng.random()
        if x < 0.7:
            await w.grow(self.rng.choice(cs))
        elif x < 0.9:
            await w.release_stops()
        else:
            c = self.rng.choice(cs)
            call = w.inc.calls.get(c)
            if call and call[0] == "start":
                call[1].put_nowait(("err",))
                await vloop.settle(40)

    async def pause(self):
        """Let time pass: little, or to just around the end of some session."""
        age = self.cfg["maxAge"]
        ends = [e["now"] + age for e in self.ev if e["e"] == "done" and e["set"]]
        ends = [x for x in ends if x > self.t - 2]
        x = self.rng.random()
        if ends and x < 0.5:
            self.t = max(self.t, self.rng.choice(ends) + self.rng.choice([-1, 0, 1, 2]))
        else:
            self.t += self.rng.choice([1, 3, age // 3, age, 2 * age])
        await self.w.at(self.t)

    async def random_step(self):
        rng, w = self.rng, self.w
        x = rng.random()
        if x < self.case["pause"]:
            return await self.pause()
        if x < self.case["pause"] + 0.12:
            return await self.evolve()
        if self.cfg["auth"] == "hub" and rng.random() < 0.15:
            return self.shake_hub()
        if self.held and rng.random() < 0.4:
            return await self.release(rng.choice(sorted(self.held)))
        eps = self.case["eps"]
        ep = rng.choices(list(eps), list(eps.values()))[0]
        cs = sorted(w.ident)
        if ep == "create" and len(cs) >= 6:
            ep = "list"
        k = rng.choice(cs) if cs and rng.random() < 0.9 else rng.choice(["nope", "c9", "0" * 32])
        cred = self.creds()
        if k in w.users and rng.random() < self.case["own"]:
            cred = self.cred_of(w.users[k])
        if ep in ("heartbeat", "delete") and k in w.ident and rng.random() < (0.5 if ep == "heartbeat" else 0.15):
            cred = dict(NOCRED, kind="token", tok=k)
        if cred["tok"] in self.gates:
            return
        cookie = self.any_cookie()
        query = ""
        if ep == "list" and rng.random() < 0.6:
            query = ",".join(rng.sample(ALL + ["RUNNING", "Stopped"], rng.choice([1, 2, 5])) +
                             (["bogus"] if rng.random() < 0.1 else []))
        elif ep == "get":
            st = w.table().get(k, {}).get("status", "gone")
            query = rng.choice(["", "wait=0", "wait" if st != "pending" else "wait=x"])
        hold = cred["kind"] == "hub" and len(self.held) < 2 and cred["tok"] not in self.gates and rng.random() < 0.25
        await self.request(ep, k, cred, cookie, hold=hold, query=query)

    def cred_of(self, user):
        auth = self.cfg["auth"]
        if auth == "simple":
            return dict(NOCRED, kind="basic", user=user, pw=self.cfg["pw"] or "x")
        if auth == "kerberos":
            return dict(NOCRED, kind="ticket", user=user)
        for t, r in sorted(self.hubtoks.items()):
            if r["name"] == user and r["kind"] == "user":
                return dict(NOCRED, kind="hub", tok=t)
        return dict(NOCRED, kind="hub", tok="svc")

    async def script_step(self, s):
        if s[0] == "tick":
            self.t += self.cfg["maxAge"] // 2
            await self.w.at(self.t)
            return
        ep, k, sess, kind, user, tok = s
        ep = {"list": self.rng.choice(["list", "options"]), "health": self.rng.choice(["health", "version"]),
              "scale": self.rng.choice(["scale", "adapt"])}.get(ep, ep)
        if tok != "-":
            cred = dict(NOCRED, kind="token", tok=tok)
        elif kind == "none":
            cred = dict(NOCRED)
        elif kind == "good":
            cred = self.cred_of(user)
        elif self.cfg["auth"] == "simple":
            cred = dict(NOCRED, kind="basic", user=user, pw=self.cfg["pw"] + "x") if self.cfg["pw"] else self.malformed()
        elif self.cfg["auth"] == "kerberos":
            cred = self.malformed()
        else:
            cred = dict(NOCRED, kind="hub", tok="unknown")
        cookie = ("", None)
        if sess:
            c = self.latest.get(sess) or self.latest.get("good-" + sess)
            if c:
                cookie = (c, self.cookies[c])
        body = ({}, True) if ep == "create" else None
        await self.request(ep, k, cred, cookie, body=body)
        if self.rng.random() < 0.1:
            await self.evolve()

    async def run(self):
        cfg = self.cfg
        self.w = w = AccessWorld({"auth": cfg["auth"], "pw": cfg["pw"], "service": cfg["service"],
                                  "useScopes": cfg["useScopes"], "maxAge": cfg["maxAge"] // 8})
        w.hold = self.hold
        try:
            await w.at(0)
            await w.up()
            self.setup_hub()
            if "script" in self.case:
                for s in self.case["script"]:
                    await self.script_step(s)
            else:
                for _ in range(self.case["steps"]):
                    await self.random_step()
            for i in sorted(self.held):
                await self.release(i)
            self.w.users = {}
            return {"cfg": cfg, "events": self.ev}
        finally:
            w.close()

    async def hold(self, tok):
        g = self.gates.get(tok)
        if g is not None:
            await g



def record(case):
    return vloop.run(lambda: Run(case).run())


def cfg_for(rng, auth):
    svc = rng.choice(["dask-gateway", "dask-gateway", "s"])
    return {"auth": auth, "pw": rng.choice(["", "secret", "p:w", "pass word"]) if auth == "simple" else "",
            "service": svc, "useScopes": rng.random() < 0.7, "maxAge": 8 * rng.choice([2, 30, 300])}


EPS15 = {"health": 1, "version": 1, "options": 2, "list": 6, "create": 6, "get": 10, "delete": 6, "scale": 6, "adapt": 5,
         "heartbeat": 5, "routes": 2}
EPS16 = {"health": 1, "options": 3, "list": 8, "create": 4, "get": 4, "delete": 2, "scale": 1, "routes": 1}

GEN = """SPECIFICATION GSpec
CONSTANTS
  Users = {"alice", "bob"}
  Clusters = {"c1", "c2", "c3"}
  MaxAge = 2
  MaxTime = 14
  MaxSess = 6
  Depth = 30
INVARIANT Emit
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
"""


def run(c):
    rng = random.Random(c.seed * 31 + int(c.prop[1:]))
    c.model(tlc.model_check("Access", "AccessMC.cfg"), "Access")
    if c.thorough:
        c.model(tlc.model_check("Access", "AccessBig.cfg", timeout=1500), "Access(longer)")
    k = 12 if c.thorough else 1
    r, scripts = tlc.behaviours("AccessGen", GEN, 60 * k, 31, c.seed)
    c.transitions += r.states
    scripts = list({repr(s[:-1]): s for s in scripts}.values())
    cases = []
    for s in scripts:
        auth = rng.choice(["simple", "kerberos", "hub"]) if c.prop == "C16" else rng.choice(["simple", "simple", "hub"])
        cfg = dict(cfg_for(rng, auth), maxAge=16)
        cases.append({"cfg": cfg, "users": USERS[:2], "seed": rng.random(), "script": s})
    nscripts = len(cases)
    for _ in range(260 * k):
        if c.prop == "C15":
            cases.append({"cfg": cfg_for(rng, rng.choice(["simple", "simple", "simple", "hub"])), "users": rng.sample(USERS, rng.choice([2, 2, 4])),
                          "eps": EPS15, "own": 0.35, "nocookie": 0.8, "pause": 0.04, "steps": rng.choice([40, 80]), "seed": rng.random()})
        else:
            cases.append({"cfg": cfg_for(rng, rng.choice(["simple", "kerberos", "hub", "hub"])), "users": rng.sample(USERS, 2),
                          "eps": EPS16, "own": 0.1, "nocookie": 0.3, "pause": 0.2, "steps": rng.choice([40, 80]), "seed": rng.random()})
    traces = par.pmap(record, cases, chunk=8)
    c.log("recorded %d traces" % len(traces))
    v = tlc.validate_parallel("AccessTrace", "AccessTrace.cfg", traces)
    c.traces_ok(len(traces), v["states"], v["distinct"])
    done = [e for t in traces for e in t["events"] if e["e"] == "done"]
    by = {}
    for e in done:
        x = "%s %d" % (e["ep"], e["st"])
        by[x] = by.get(x, 0) + 1
    c.note(tlc_scripts=nscripts, random_scripts=len(cases) - nscripts, requests=len(done), answers=by,
           cookies=sum(1 for e in done if e["set"]))
    c.sample([{k: x for k, x in e.items() if k not in ("before", "after")} for e in traces[-1]["events"][:6]])
    for i, ver in enumerate(v["verdicts"]):
        if not ver["ok"]:
            evs = traces[i]["events"][:max(ver["at"], 1)]
            c.violation("%s (event %d: %s)" % ("; ".join(ver["why"]), ver["at"],
                                               {k: x for k, x in evs[-1].items() if k not in ("before", "after")}),
                        {"case": cases[i], "cfg": cases[i]["cfg"], "events": evs})


if __name__ == "__main__":
    report.main(run)
