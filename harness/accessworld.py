"""The real gateway (app, routes, authenticator, DB backend) with several users, in virtual time."""
import asyncio
import base64
import sys
import types

from . import dbworld, fakehttp, http, vloop

PROXY_TOKEN = "<proxy>"


class GSSError(Exception):
    pass


def fake_kerberos():
    """Accepts tickets "ticket:<user>"."""
    k = types.ModuleType("kerberos")
    k.GSSError = GSSError
    k.AUTH_GSS_COMPLETE = 1
    k.AUTH_GSS_CONTINUE = 0
    k.live = 0

    def init(service):
        k.live += 1
        return 1, {"service": service}

    def step(ctx, ticket):
        if not ticket.startswith("ticket:"):
            raise GSSError("bad ticket")
        ctx["user"] = ticket[7:] + "@REALM"
        return 1

    def clean(ctx):
        k.live -= 1
    k.authGSSServerInit, k.authGSSServerStep, k.authGSSServerClean = init, step, clean
    k.authGSSServerResponse = lambda ctx: "resp"
    k.authGSSServerUserName = lambda ctx: ctx["user"]
    return k


class AccessWorld(dbworld.World):
    """cfg["auth"]: simple | kerberos | hub; cfg["pw"], cfg["service"], cfg["maxAge"] (seconds)."""

    def __init__(self, cfg):
        super().__init__(dict({"cst": 10 ** 6, "wst": 10 ** 6, "hbt": 10 ** 6, "pT": 10 ** 5, "pC": 10 ** 5,
                               "pW": 10 ** 5, "pX": 10 ** 5, "age": 10 ** 6}, **cfg))
        self.msgs = []
        self.hub = {}              # token -> reply
        self.scheduler = lambda k, op: (200, {})
        self.cookies = {}          # cookie value -> id
        self.hold = None

    def _config(self):
        c = super()._config()
        c.DaskGateway.authenticator_class = {
            "simple": "dask_gateway_server.auth.SimpleAuthenticator",
            "kerberos": "dask_gateway_server.auth.KerberosAuthenticator",
            "hub": "dask_gateway_server.auth.JupyterHubAuthenticator"}[self.cfg.get("auth", "simple")]
        c.Authenticator.cache_max_age = self.cfg.get("maxAge", 300)
        c.Authenticator.cookie_name = "dgc"
        if self.cfg.get("pw"):
            c.SimpleAuthenticator.password = self.cfg["pw"]
        h = c.JupyterHubAuthenticator
        h.jupyterhub_api_token = "hubtoken"
        h.jupyterhub_api_url = "http://hub/api"
        h.jupyterhub_service_name = self.cfg.get("service", "")
        if "useScopes" in self.cfg:
            h.use_service_access_scopes = self.cfg["useScopes"]
        if self.cfg.get("options"):
            c.Backend.cluster_options = self.cfg["options"]
        for k, v in self.cfg.get("admin", {}).items():
            setattr(c.ClusterConfig, k, v)
        return c

    async def up(self, image=None):
        fakehttp.install(self.outgoing)
        sys.modules["kerberos"] = fake_kerberos()
        await super().up(image)

    # -- requests the gateway makes
    async def outgoing(self, method, url, headers, body):
        auth = headers.get("Authorization", "")
        if url.startswith("http://hub/api"):
            tok = auth.partition(" ")[2] if auth.startswith("token ") else None
            if self.hold is not None:
                await self.hold(tok)
            if method != "GET" or url != "http://hub/api/user":
                return 404, {"message": "no such thing"}
            r = self.hub.get(tok, {"st": 403})
            if r["st"] == 0:
                return fakehttp.Refused("hub is down")
            if r["st"] == -1:
                return 200, b"<html>", "text/html"
            return r["st"], {k: r[k] for k in ("name", "kind", "scopes", "groups", "admin") if k in r}
        # a scheduler
        k = "?"
        for c, n in self.addr.items():
            if url == "http://h:%d/api/comm" % (n + 200):
                k = c
        tok = next((c for c in self.ident if auth == "token " + self.token(c)), "?")
        self.msgs.append({"k": k, "tok": tok, "op": (body or {}).get("op", "?"), "body": body, "method": method})
        res = self.scheduler(k, body)
        if asyncio.iscoroutine(res):
            res = await res
        return res

    addr = {}

    # -- requests to the gateway
    async def req(self, method, path, headers=None, cookie=None, body=None):
        h = dict(headers or {})
        if cookie:
            h["Cookie"] = "dgc=" + cookie
        r = await http.call(self.gw.app, method, path, h, body)
        return r

    @staticmethod
    def basic_header(user, pw):
        return "Basic " + base64.b64encode(("%s:%s" % (user, pw)).encode()).decode()

    # -- state
    def table(self):
        """Every cluster: owner, reported status, and everything stored about it."""
        res = {}
        cl, wk = self.scan()
        for r in cl:
            c = self.names[r[1]]
            m = self.gw.backend.db.name_to_cluster[r[1]].to_model() if r[1] in self.gw.backend.db.name_to_cluster else None
            res[c] = {"owner": r[2], "status": m.status.name.lower() if m else "gone",
                      "row": repr(r[3:]) + repr([w[2:] for w in wk if w[2] == r[0]]),
                      "stopping": r[4] in (4, 5) or (m is not None and m.status.name in ("STOPPING", "STOPPED", "FAILED"))}
        return res

    async def grow(self, c):
        """Backend start succeeds and the scheduler reports in."""
        call = self.inc.calls.get(c)
        if call and call[0] == "start":
            call[1].put_nowait(("yield", 1))
            await vloop.settle(30)
            n = 1000 + int(c[1:])
            self.addr = dict(self.addr, **{c: n})
            st, d = await self.http("POST", "/api/v1/clusters/%s/heartbeat" % self.rnames[c], "token " + self.token(c),
                                    self.heartbeat_msg(c))
            call[1].put_nowait(("ok",))
            await vloop.settle(30)

    def heartbeat_msg(self, c):
        n = 1000 + int(c[1:])
        return {"api_address": "http://h:%d" % (n + 200), "scheduler_address": "tls://h:%d" % n,
                "dashboard_address": "http://h:%d" % (n + 100), "count": 0,
                "active_workers": [], "closing_workers": [], "closed_workers": []}

    async def release_stops(self):
        for o, (op, q) in list(self.inc.calls.items()):
            if op == "stop":
                q.put_nowait(("ok",))
        await vloop.settle(40)
