"""A stand-in for the `skein` package: a YARN resource manager with applications and containers.

`install(manager)` makes `import skein` give a module whose clients talk to that manager.
What is called, and with what, is given to the manager's hooks; what it raises is raised."""
import sys
import types

OVER = {"FINISHED", "FAILED", "KILLED"}


class State(str):
    __hash__ = str.__hash__


class SkeinError(Exception):
    pass


class SkeinConnectionError(SkeinError, OSError):
    pass


class _Record:
    def __init__(self, *args, **kw):
        self.args = args
        self.__dict__.update(kw)


class Security(_Record):
    made = 0

    def __init__(self, cert_file=None, key_file=None, cert_bytes=None, key_bytes=None):
        self.cert_file, self.key_file, self.cert_bytes, self.key_bytes = cert_file, key_file, cert_bytes, key_bytes

    @classmethod
    def new_credentials(cls):
        return cls(cert_bytes=b"own cert", key_bytes=b"own key")

    def contents(self):
        def get(b, f):
            if b is not None:
                return b.encode() if isinstance(b, str) else b
            src = getattr(f, "source", f)
            with open(src, "rb") as fil:
                return fil.read()
        return get(self.cert_bytes, self.cert_file), get(self.key_bytes, self.key_file)


class File(_Record):
    def __init__(self, source=None, type="file", visibility="application", size=0, timestamp=0):
        self.source, self.type, self.visibility = source, type, visibility

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


class Resources(_Record):
    def __init__(self, memory=None, vcores=None, gpus=0, fpgas=0):
        self.memory, self.vcores = memory, vcores

    def kib(self):
        m = self.memory
        if isinstance(m, str):
            n, unit = m.split() if " " in m else (m.rstrip("bBkKmMgGtTpPiI"), m.lstrip("0123456789. "))
            scale = {"b": 1, "kb": 10**3, "mb": 10**6, "gb": 10**9, "tb": 10**12, "kib": 2**10, "mib": 2**20, "gib": 2**30, "tib": 2**40}
            return int(-(-float(n) * scale[unit.lower()] // 1024))
        return int(m) * 1024


class Master(_Record):
    def __init__(self, resources=None, script="", env=None, files=None, log_level=None, security=None):
        self.resources, self.script, self.env, self.files, self.security = resources, script, dict(env or {}), dict(files or {}), security


class Service(_Record):
    def __init__(self, resources=None, script="", instances=1, files=None, env=None, depends=None, max_restarts=0, allow_failures=False,
                 node_label="", nodes=None, racks=None, relax_locality=False):
        self.resources, self.script, self.instances, self.files, self.env = resources, script, instances, dict(files or {}), dict(env or {})
        self.max_restarts, self.allow_failures = max_restarts, allow_failures


class ApplicationSpec(_Record):
    def __init__(self, services=None, master=None, name="skein", queue="default", user="", node_label="", tags=None, file_systems=None, acls=None, max_attempts=1):
        self.services, self.master, self.name, self.queue, self.user, self.max_attempts = dict(services or {}), master, name, queue, user, max_attempts


class Manager:
    """Applications of the cluster. Hooks: fault(call, app) gives None, or (when, exception) with when "before" or "after"."""

    def __init__(self, hook, fault, ids, strict=False):
        self.strict, self.hook, self.fault, self.ids, self.apps = strict, hook, fault, ids, {}
        self.clients = []

    def call(self, name, app, fn, **kw):
        f = self.fault(name, app)
        if f and f[0] == "before":
            self.hook(name, app, kw, None, f[1])
            raise f[1]
        try:
            out = fn()
        except Exception as exc:
            self.hook(name, app, kw, None, exc)
            raise
        self.hook(name, app, kw, out, f and f[1])
        if f:
            raise f[1]
        return out


def install(manager):
    class Client(_Record):
        def __init__(self, address=None, security=None, keytab=None, principal=None, log=None, log_level=None, java_options=None):
            self.security, self.keytab, self.principal, self.closed = security, keytab, principal, False
            manager.clients.append(self)

        def close(self):
            self.closed = True

        def _app(self, id):
            if id not in manager.apps:
                raise ValueError("Unknown application id %r" % (id,))
            return manager.apps[id]

        def submit(self, spec):
            return manager.call("submit", None, lambda: manager.submit(spec), spec=spec)

        def application_report(self, app_id):
            def go():
                a = self._app(app_id)
                up = a.state == "RUNNING"
                return _Record(id=app_id, state=State(a.state), host=a.host if up else "N/A", port=a.port if up else -1, user=a.spec.user)
            return manager.call("report", app_id, go)

        def kill_application(self, app_id, user=""):
            def go():
                a = self._app(app_id)
                if a.state not in OVER:
                    a.end("KILLED")
            return manager.call("kill", app_id, go, user=user)

    class ApplicationClient(_Record):
        def __init__(self, address, app_id, security=None):
            self.address, self.id, self.security = address, app_id, security

        def _app(self):
            a = manager.apps.get(self.id)
            if a is None or a.state != "RUNNING" or self.address != "%s:%d" % (a.host, a.port):
                raise SkeinConnectionError("Unable to connect to application")
            if self.security is None or self.security.contents() != a.spec.master.security.contents():
                manager.hook("badcreds", self.id, {}, None, None)
                raise SkeinConnectionError("Unable to connect to application")
            return a

        def add_container(self, service, env=None, instances=None):
            return manager.call("add", self.id, lambda: self._app().add(service, dict(env or {})), service=service, env=dict(env or {}))

        def kill_container(self, id):
            def go():
                a = self._app()
                if id not in a.containers:
                    raise ValueError("Container %s doesn't exist" % (id,))
                if a.containers[id].state in ("WAITING", "REQUESTED", "RUNNING"):
                    a.containers[id].state = State("KILLED")
                elif manager.strict:
                    raise ValueError("Container %s has already ended" % (id,))
            return manager.call("killc", self.id, go, container=id)

        def get_containers(self, services=None, states=None):
            def go():
                live = ("WAITING", "REQUESTED", "RUNNING") if states is None else tuple(str(x).upper() for x in states)
                if services is not None and isinstance(services, str):
                    raise TypeError("services must be a set")
                return [c for c in self._app().containers.values() if c.state in live and (services is None or c.service_name in services)]
            return manager.call("containers", self.id, go)

        def get_specification(self):
            return self._app().spec

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    m = types.ModuleType("skein")
    for x in (Security, File, Resources, Master, Service, ApplicationSpec, Client, ApplicationClient):
        setattr(m, x.__name__, x)
    m.exceptions = types.ModuleType("skein.exceptions")
    for name, x in (("SkeinError", SkeinError), ("ConnectionError", SkeinConnectionError)):
        setattr(m.exceptions, name, x)
    m.SkeinError, m.ConnectionError = SkeinError, SkeinConnectionError
    sys.modules["skein"], sys.modules["skein.exceptions"] = m, m.exceptions
    return m


class App:
    def __init__(self, manager, id, spec, n):
        self.id, self.spec, self.n, self.state, self.containers = id, spec, n, "SUBMITTED", {}
        self.host, self.port, self.count = "node%d.yarn" % n, 20000 + n, 0
        self.manager = manager

    def add(self, service, env):
        if service not in self.spec.services:
            raise ValueError("Unknown service %s" % service)
        # ids count up in every application: those of different ones are alike
        id = "%s_%d" % (service, self.count)
        self.count += 1
        self.containers[id] = _Record(id=id, service_name=service, state=State("REQUESTED"), env=env, n=self.manager.ids())
        return self.containers[id]

    def end(self, state):
        self.state = state
        for c in self.containers.values():
            if c.state in ("WAITING", "REQUESTED", "RUNNING"):
                c.state = State("KILLED")
