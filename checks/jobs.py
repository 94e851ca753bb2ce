"""C27: job-queue and local backends act on exactly their own jobs (spec/Jobs.tla, ProcStop.tla)."""
import asyncio
import errno
import getopt
import io
import json
import os
import random
import re
import shlex
import shutil
import subprocess
import sys
import tempfile
import types

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import par, report, tlc, vloop  # noqa: E402
import grp  # noqa: E402
import pwd  # noqa: E402
import signal  # noqa: E402

from dask_gateway_server import app as _app  # noqa: E402
from dask_gateway_server.backends import db_base, local  # noqa: E402
from dask_gateway_server.backends.jobqueue import launcher, pbs, slurm  # noqa: E402
from dask_gateway_server.utils import FrozenAttrDict  # noqa: E402
from traitlets.config import Config  # noqa: E402

BACKENDS = {"slurm": slurm.SlurmBackend, "pbs": pbs.PBSBackend, "local": local.LocalBackend, "unsafe": local.UnsafeLocalBackend}
SIGNALS = {signal.SIGINT: "INT", signal.SIGTERM: "TERM", signal.SIGKILL: "KILL"}
REAL_RMTREE = shutil.rmtree


class Obj:
    """A cluster or a worker, as the engine keeps it."""

    def __init__(self, n, name, cluster=None):
        self.n, self.name, self.cluster, self.state = n, name, cluster, {}
        self.job, self.up, self.fault, self.lost = None, False, None, False

    @property
    def owner(self):
        return self.cluster or self


class Answer:
    """What asyncio.create_subprocess_exec gives."""

    def __init__(self, pid, run):
        self.pid, self.run, self.returncode = pid, run, None

    async def communicate(self, input=None):
        self.returncode, out, err = await self.run(input)
        return out, err

    async def wait(self):
        return self.returncode


class Run:
    def __init__(self, cfg):
        self.cfg, self.rng = cfg, random.Random(cfg["seed"])
        self.kind = cfg["kind"]
        self.islocal = self.kind in ("local", "unsafe")
        self.objs, self.ev, self.jobs, self.pids = [], [], {}, {}
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="jobs-"))
        self.users = {}
        for i in range(3):
            u = "user%d" % (self.rng.randrange(10**9))
            home = os.path.join(self.dir, "home", u)
            os.makedirs(home)
            self.users[u] = types.SimpleNamespace(pw_name=u, pw_uid=5000 + i, pw_gid=6000 + i, pw_dir=home, pw_shell="/bin/sh", pw_passwd="x", pw_gecos="")
        self.tmp = os.path.join(self.dir, "tmp")
        self.shared = os.path.join(self.dir, "shared")
        os.makedirs(self.tmp), os.makedirs(self.shared)
        self.owner = {}
        self.saved = []
        self.plan = {}
        self.lastid = self.rng.choice([0, 99, 12344])
        self.lastpid = 10**7 + self.rng.randrange(10**6)
        self.tasks = []

    def log(self, e, **kw):
        self.ev.append(dict(e=e, **kw))

    # ------------------------------------------------------------ stand-ins
    def patch(self, obj, name, value):
        self.saved.append((obj, name, obj.__dict__.get(name, self)))
        setattr(obj, name, value)

    def restore(self):
        for obj, name, value in reversed(self.saved):
            if value is self:
                delattr(obj, name)
            else:
                setattr(obj, name, value)

    def install(self):
        def getpwnam(u):
            if u in self.users:
                return self.users[u]
            raise KeyError("getpwnam(): name not found: %r" % u)

        groups = [types.SimpleNamespace(gr_name="g%d" % i, gr_gid=7000 + i, gr_mem=[u for j, u in enumerate(self.users) if (i + j) % 2]) for i in range(3)]
        self.groups = groups
        self.patch(pwd, "getpwnam", getpwnam)
        self.patch(grp, "getgrall", lambda: groups)
        if hasattr(local.getpwnam, "cache_clear"):
            local.getpwnam.cache_clear()
        self.patch(asyncio, "create_subprocess_exec", self.spawn)
        self.patch(subprocess, "Popen", self.popen)
        self.patch(os, "kill", self.kill)
        self.patch(os, "killpg", self.kill)
        self.patch(os, "chown", self.chown)
        self.patch(os, "lchown", self.chown)
        self.patch(os, "fchown", self.chown)
        for n in ("setuid", "setgid", "setgroups", "chdir", "initgroups"):
            self.patch(os, n, lambda *a, n=n: self.cred(n, *a))
        self.patch(shutil, "rmtree", self.rmtree)
        self.patch(tempfile, "tempdir", self.tmp)
        self.patch(launcher, "open", self.open)

    def inside(self, path):
        return os.path.realpath(path).startswith(self.dir + os.sep)

    def rmtree(self, path, *a, **kw):
        if not self.inside(path):
            self.log("chown", path=str(path))
            return
        f = self.current("rmfail", path)
        if f:
            f.nofiles = True
            raise OSError(errno.EBUSY, "Device or resource busy", path)
        return REAL_RMTREE(path, *a, **kw)

    def current(self, fault, path):
        """The object whose directory this is, if it's to suffer this fault now."""
        for o in self.objs:
            if not o.cluster and o.name in str(path) and o.fault == fault:
                return o

    def open(self, path, mode="r", *a, **kw):
        if "w" in mode and self.current("stagefile", path) and not path.endswith("dask.pem"):
            raise OSError(errno.ENOSPC, "No space left on device", path)
        return open(path, mode, *a, **kw)

    def chown(self, path, uid, gid, *a, **kw):
        if isinstance(path, int):
            path = os.readlink("/proc/self/fd/%d" % path)
        path = os.path.realpath(path)
        o = next((o for o in self.objs if not o.cluster and ("/" + o.name in path or o.name + "/" in path + "/")), None)
        if o is None or not self.inside(path):
            self.log("chown", path=path)
        else:
            self.owner[path] = (uid, gid)

    def cred(self, what, *a):
        c = self.creds
        if what == "chdir":
            c["cwd"] = str(a[0])
            return
        if c is None:
            return
        if c["uid"]:
            raise PermissionError(errno.EPERM, "Operation not permitted")
        if what == "initgroups":
            c["groups"] = sorted({g.gr_gid for g in self.groups if a[0] in g.gr_mem} | {a[1]})
        else:
            c[what[3:]] = sorted(a[0]) if what == "setgroups" else a[0]

    def kill(self, pid, sig):
        now = asyncio.get_running_loop().time()
        p = self.pids.get(pid)
        if p and p["dies"] is not None and p["dies"] <= now:
            p = None
        if sig:
            self.log("signal", id=pid if pid in self.pids else -1, s=SIGNALS.get(sig, str(sig)), t=int(round((now - 1000) * 1000)), alive=p is not None)
        if p is None:
            if pid in self.pids:
                self.log("gone", id=pid)
            raise ProcessLookupError(errno.ESRCH, "No such process")
        if sig and sig in p["obeys"]:
            at = now + p["obeys"][sig]
            p["dies"] = at if p["dies"] is None else min(at, p["dies"])

    def alive(self, pid):
        p = self.pids[pid]
        return p["dies"] is None or p["dies"] > asyncio.get_running_loop().time()

    # ------------------------------------------------------------ processes of the gateway
    async def spawn(self, *cmd, stdin=None, stdout=None, stderr=None, env=None, **kw):
        if self.islocal:
            return await self.process(cmd, env, stdout, kw)
        cmd = list(cmd)
        if cmd[0].endswith("sudo"):
            opts, rest = getopt.getopt(cmd[1:], "nHu:ESkb")
            user = dict(opts).get("-u")
            if rest != [self.launcher]:
                raise FileNotFoundError(errno.ENOENT, "No such file", str(rest))
            async def run(data):
                t = asyncio.ensure_future(self.sudo(user, data))
                self.tasks.append(t)
                return await asyncio.shield(t)
            return Answer(1, run)
        if cmd[0] != self.status:
            raise FileNotFoundError(errno.ENOENT, "No such file", cmd[0])
        if self.checkfault == "nocmd":
            raise FileNotFoundError(errno.ENOENT, "No such file", cmd[0])

        async def run(data):
            await asyncio.sleep(self.rng.choice([0, 0.1, 1]))
            res = self.query(cmd)
            await asyncio.sleep(self.rng.choice([0, 0.1, 1]))
            return res
        return Answer(1, run)

    def target(self, data):
        """Whom a request to the launcher is about."""
        text = data.decode()
        os_ = [o for o in self.objs if not o.cluster and o.name in text] + [o for o in self.objs if o.cluster and o.name in text]
        return os_[-1] if os_ else None

    async def sudo(self, user, data):
        """sudo starts the launcher, which runs a command of the manager."""
        await asyncio.sleep(self.rng.choice([0, 0, 0.05, 0.5, 3]))
        if user not in self.users:
            return 1, b"", b"sudo: unknown user"
        req = json.loads(data)
        o = self.target(data) if req.get("action") == "start" else next((x for x in self.objs if x.job in (req.get("cmd") or [])), None)
        if o is not None and o.fault == "sudo":
            return 1, b"", b"sudo: a password is required\n"
        self.by, self.about = user, o
        out, fin = io.StringIO(), io.TextIOWrapper(io.BytesIO(data), encoding="utf8")
        rc, saved, home = 0, (sys.stdin, sys.stdout, sys.stderr), os.environ.get("HOME")
        sys.stdin, sys.stdout, sys.stderr = fin, out, io.StringIO()
        os.environ["HOME"] = self.users[user].pw_dir
        try:
            launcher.main()
        except SystemExit as e:
            rc = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except Exception as e:
            rc = 1
            self.crash = repr(e)
        finally:
            sys.stdin, sys.stdout, sys.stderr = saved
            if home is None:
                os.environ.pop("HOME", None)
            else:
                os.environ["HOME"] = home
        await asyncio.sleep(self.rng.choice([0, 0, 0.05, 0.5]))
        return rc, out.getvalue().encode(), b"" if not rc else b"Traceback"

    def popen(self, cmd, **kw):
        run = self

        class P:
            returncode = None
            args = cmd

            def __enter__(s):
                return s

            def __exit__(s, *a):
                pass

            def communicate(s, input=None, timeout=None):
                s.returncode, out, err = run.command(cmd, kw.get("env"), kw.get("cwd"), input)
                return out.encode(), err

            def wait(s, timeout=None):
                return s.returncode

            def poll(s):
                return s.returncode

            def kill(s):
                pass

        if self.about is not None and self.about.fault == "nocmd" or cmd[0] not in (self.submit, self.cancel):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", cmd[0])
        if kw.get("cwd") is not None and not os.path.isdir(kw["cwd"]):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", kw["cwd"])
        return P()

    # ------------------------------------------------------------ the manager
    def noise(self):
        return self.rng.choice([b"", b"", b"warning: \xff\xfe odd\n", "Achtung: läuft\n".encode()])

    def command(self, cmd, env, cwd, data):
        if cmd[0] == self.submit:
            return self.submission(cmd, env or {}, data)
        rng, id = self.rng, cmd[-1]
        if len(cmd) != 2:
            self.log("cancel", id=-1, user=True)
            return 1, "", b"usage"
        j = self.jobs.get(id)
        self.log("cancel", id=j["num"] if j else -1, user=bool(j) and j["user"] == self.by)
        if j is None:
            return 1, "", b"Invalid job id"
        if j["user"] != self.by:
            return 1, "", b"access denied"
        if self.about is not None and self.about.fault == "cancelfail":
            self.about.hit = True
            return rng.choice([1, 255]), "", b"slurm_load_jobs error: Unable to contact slurm controller"
        if j["state"] != "alive":
            if self.kind == "pbs":
                return 35, "", b"qdel: Job has finished " + id.encode()
            return 0, "", b""
        j["state"] = "dead"
        j["how"] = rng.choice(["CA", "CG2"]) if self.kind == "slurm" else "F"
        return 0, "", self.noise()

    def submission(self, cmd, env, data):
        rng, wrong = self.rng, []
        opt = {}
        try:
            if self.kind == "slurm":
                o, rest = getopt.getopt(cmd[1:], "J:p:A:q:D:o:c:", ["parsable", "job-name=", "partition=", "account=", "qos=", "chdir=", "output=", "cpus-per-task=", "mem=", "export="])
                opt, script = dict(o), (data or b"").decode()
                names = opt["--export"].split(",")
                lines = script.split("\n")
                if rest or not script.startswith("#!/bin/"):
                    wrong.append("script")
                asked = {"cores": int(opt["--cpus-per-task"]), "mem": self.mem(opt["--mem"])}
                got = {k: opt.get(k, "") for k in ("--partition", "--account", "--qos")}
                cwd = opt["--chdir"]
            else:
                o, rest = getopt.getopt(cmd[1:], "N:q:A:P:j:R:W:v:l:", [])
                opt = dict(o)
                names = opt["-v"].split(",")
                if rest[:2] != ["/bin/sh", "-c"] or len(rest) != 3:
                    wrong.append("script")
                lines = rest[2].split("\n")
                got = {k: opt.get(k, "") for k in ("-q", "-A", "-P")}
                ws = [v for k, v in o if k == "-W"]
                cwd = None
                m = re.search(r"(?:ncpus|ppn)=(\d+)(?!\d)", opt["-l"]), re.search(r"mem=(\w+)", opt["-l"])
                asked = {"cores": int(m[0].group(1)), "mem": self.mem(m[1].group(1))}
        except Exception as e:
            self.log("submit", o=0, id=0, user=False, wrong=["%r" % e], asked={"cores": -1, "mem": 0})
            return 1, "", b"usage"
        jobenv = {}
        for n in names:
            k, eq, v = n.partition("=")
            if eq:
                jobenv[k] = v
            elif k in env:
                jobenv[k] = env[k]
        cluster = next((x for x in self.objs if not x.cluster and x.name == jobenv.get("DASK_GATEWAY_CLUSTER_NAME")), None)
        text = "\n".join(lines)
        tokens = shlex.split([x for x in lines if x.strip()][-1]) if text.strip() else []
        worker = next((x for x in self.objs if x.cluster and x.cluster is cluster and x.name in tokens), None)
        o = worker or cluster
        if o is not None:
            wrong += self.wrongs(o, jobenv, tokens, "\n".join(lines[:-1]))
            conf = self.conf(o)
            keys = (("--partition", "partition"), ("--account", "account"), ("--qos", "qos")) if self.kind == "slurm" else (("-q", "queue"), ("-A", "account"), ("-P", "project"))
            for k, name in keys:
                if got[k] != getattr(conf, name):
                    wrong.append(name)
            if self.kind == "pbs" and o.owner.conf["use_stagein"]:
                m = [w for w in ws if w.startswith("stagein=")]
                if len(m) != 1 or m[0] != "stagein=.@%s:%s/*" % (self.gwhost, self.staging(o)):
                    wrong.append("stagein")
            tls = [jobenv.get("DASK_DISTRIBUTED__COMM__TLS__" + x, "") for x in ("CA_FILE", ("WORKER" if worker else "SCHEDULER") + "__CERT", ("WORKER" if worker else "SCHEDULER") + "__KEY")]
            base = self.staging(o) if self.kind == "pbs" and o.owner.conf["use_stagein"] else cwd
            if not o.owner.wiped and not o.lost:
                wrong += self.tls(o, [p if p.startswith("/") else os.path.join(base or "/nowhere", p) for p in tls])
                st = self.staging(o)
                if not os.path.isdir(st) or os.stat(st).st_mode & 0o077:
                    wrong.append("staging directory")
        ok = o is not None and o.fault != "reject"
        id = 0
        if ok:
            self.lastid += 1
            id = self.lastid
            jid = str(id) if self.kind == "slurm" else "%d.%s" % (id, self.cfg["server"])
            self.jobs[jid] = {"num": id, "state": "alive", "user": self.by, "o": o.n}
            o.job = jid
        self.log("submit", o=o.n if o else 0, id=id, user=bool(o) and self.by == o.owner.user, wrong=wrong, asked=asked)
        if not ok:
            return rng.choice([1, 2, 255]), rng.choice(["", "", "sbatch: error 17\n"]), b"no such queue\n"
        return 0, rng.choice(["%s\n", "%s", " %s \n"]) % jid, self.noise()

    def mem(self, s):
        m = re.fullmatch(r"(\d+)([kKmMgGtT]?)[bB]?", s)
        n = int(m.group(1))
        sh = {"k": 10, "m": 20, "g": 30, "t": 40}.get(m.group(2).lower(), 20 if self.kind == "slurm" else 0)
        return (n << sh) >> 10

    def tls(self, o, paths):
        bad = []
        for p, want, what in zip(paths, (o.owner.cert, o.owner.cert, o.owner.key), ("ca", "cert", "key")):
            try:
                with open(p, "rb") as f:
                    if f.read() != want:
                        bad.append(what)
                if what == "key" and os.stat(p).st_mode & 0o077 and self.islocal:
                    bad.append("key mode")
            except OSError:
                bad.append(what)
        return bad

    def wrongs(self, o, env, tokens, before):
        c, conf, bad = o.owner, self.conf(o), []
        want = dict(conf.environment, DASK_GATEWAY_API_TOKEN=c.token, DASK_GATEWAY_CLUSTER_NAME=c.name, DASK_GATEWAY_API_URL=self.url)
        bad += ["env " + k for k, v in want.items() if env.get(k) != v]
        cmd = list(conf.worker_cmd if o.cluster else conf.scheduler_cmd)
        if tokens[:len(cmd)] != cmd:
            bad.append("command")
        rest = tokens[len(cmd):]
        pairs = dict(zip(rest, rest[1:]))
        if o.cluster:
            ok = c.address in rest and pairs.get("--name") == o.name and pairs.get("--nthreads") == str(conf.worker_threads) and pairs.get("--memory-limit") == str(conf.worker_memory)
        else:
            ok = pairs.get("--protocol") == "tls" and pairs.get("--dg-adaptive-period") == str(conf.adaptive_period) and pairs.get("--dg-idle-timeout") == str(conf.idle_timeout)
        if not ok:
            bad.append("arguments")
        if not self.islocal:
            setup = conf.worker_setup if o.cluster else conf.scheduler_setup
            if setup not in before:
                bad.append("setup")
        return bad

    def query(self, cmd):
        rng, f = self.rng, self.checkfault
        if f == "rc":
            return rng.choice([1, 2, 255]), rng.choice([b"", b"", b"12 R\n"]), b"Unable to contact the controller\n"
        if self.kind == "slurm":
            o, rest = getopt.getopt(cmd[1:], "hj:o:t:", ["job=", "jobs=", "noheader", "format=", "states="])
            d = dict(o)
            ids = (d.get("--job") or d.get("--jobs") or d.get("-j")).split(",")
            if (d.get("-o") or d.get("--format")) != "%i %t" or not ("-h" in d or "--noheader" in d):
                raise AssertionError("unknown format %r" % (cmd,))
        else:
            ids = [x for x in cmd[1:] if x != "-x"]
            if "-x" not in cmd:
                raise AssertionError("unknown form %r" % (cmd,))
        rows, unknown = [], []
        for id in ids:
            j = self.jobs.get(id)
            if j is None or j["state"] == "purged":
                self.answers[id] = 2
                unknown.append(id)
                continue
            self.answers[id] = int(j["state"] == "alive")
            if self.kind == "slurm":
                if j["state"] == "alive":
                    st = j.setdefault("st", rng.choice(["PD", "R", "CF"]))
                    if rng.random() < 0.4:
                        st = j["st"] = rng.choice(["R", "R", "CG", "PD", "CF"])
                    rows.append("%s %s" % (id, st))
                elif rng.random() < 0.5:  # squeue shows jobs that are over only for a while
                    rows.append("%s %s" % (id, j.setdefault("end", rng.choice(["CD", "F", "CA", "TO", "NF", "OOM", "DL", "BF", "PR"]))))
            else:
                st = rng.choice(["Q", "R", "R", "H"]) if j["state"] == "alive" else rng.choice("FX")
                rows.append("%-18s %-16s %-16s %8s %s %s" % (id, "dask-gateway", j["user"][:15], rng.choice(["0", "00:01:02"]), st, "workq"))
        if rng.random() < 0.3:
            rng.shuffle(rows)
        out = "\n".join(rows) + ("\n" if rows else "")
        if self.kind == "slurm":
            if unknown and len(ids) == 1:
                return 1, b"", b"slurm_load_jobs error: Invalid job id specified\n"
            return 0, out.encode(), self.noise()
        if rows:
            head = "%-18s %-16s %-16s %8s S Queue\n" % ("Job id", "Name", "User", "Time Use") + "%s  %s %s %s - -----\n" % ("-" * 17, "-" * 16, "-" * 16, "-" * 8)
            out = head + out
        err = b"".join(b"qstat: Unknown Job Id %s\n" % x.encode() for x in unknown)
        return (153 if unknown else 0), out.encode(), err or self.noise()

    # ------------------------------------------------------------ local processes
    async def process(self, cmd, env, stdout, kw):
        await asyncio.sleep(self.rng.choice([0, 0, 0.01, 0.3]))
        env, cmd = env or {}, list(cmd)
        cluster = next((x for x in self.objs if not x.cluster and x.name == env.get("DASK_GATEWAY_CLUSTER_NAME")), None)
        worker = next((x for x in self.objs if x.cluster and x.cluster is cluster and x.name in cmd), None)
        o = worker or cluster
        if o is not None and o.fault == "nocmd":
            raise self.rng.choice([FileNotFoundError(errno.ENOENT, "No such file"), BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable"), PermissionError(errno.EACCES, "denied")])
        self.creds = c = {"uid": 0, "gid": 0, "groups": [0], "cwd": None}
        out, sys.stderr = sys.stderr, io.StringIO()
        try:
            if kw.get("cwd"):
                c["cwd"] = str(kw["cwd"])
            c["gid"] = kw.get("group") or c["gid"]
            c["groups"] = sorted(kw["extra_groups"]) if kw.get("extra_groups") is not None else c["groups"]
            c["uid"] = kw.get("user") or c["uid"]
            if kw.get("preexec_fn"):
                try:
                    kw["preexec_fn"]()
                except Exception:
                    raise subprocess.SubprocessError("Exception occurred in preexec_fn.")
        finally:
            sys.stderr = out
            self.creds = None
        wrong = []
        if o is not None:
            wrong += self.wrongs(o, env, cmd, "")
            tls = [env.get("DASK_DISTRIBUTED__COMM__TLS__" + x, "") for x in ("CA_FILE", ("WORKER" if worker else "SCHEDULER") + "__CERT", ("WORKER" if worker else "SCHEDULER") + "__KEY")]
            wd = o.owner.state.get("workdir")
            if not o.owner.wiped:
                wrong += self.tls(o, tls)
                if os.stat(wd).st_mode & 0o077:
                    wrong.append("working directory mode")
            if c["cwd"] != wd:
                wrong.append("cwd")
            if self.kind == "local":
                u = self.users.get(o.owner.user)
                if u is None or (c["uid"], c["gid"]) != (u.pw_uid, u.pw_gid):
                    wrong.append("user")
                elif not set(c["groups"]) - {u.pw_gid} == {g.gr_gid for g in self.groups if u.pw_name in g.gr_mem}:
                    wrong.append("groups")
                elif not o.owner.wiped:
                    for root, dirs, files in os.walk(wd):
                        for p in [root] + [os.path.join(root, f) for f in files if not f.endswith(".log")]:
                            if self.owner.get(os.path.realpath(p)) != (u.pw_uid, u.pw_gid):
                                wrong.append("owner of " + os.path.relpath(p, wd))
        rng = self.rng
        self.lastpid += rng.randrange(1, 9)
        pid = self.lastpid
        lag = lambda: rng.choice([0.01, 0.1, 1, 4])  # noqa: E731
        how = rng.choice(["int", "int", "term", "kill", "slow", "never"])
        kl = rng.choice([0, 0.01, 1])
        obeys = {"int": {signal.SIGINT: lag(), signal.SIGTERM: lag(), signal.SIGKILL: kl}, "term": {signal.SIGTERM: lag(), signal.SIGKILL: kl},
                 "kill": {signal.SIGKILL: kl}, "slow": {signal.SIGINT: rng.choice([11, 13, 15, 30]), signal.SIGTERM: rng.choice([2, 8]), signal.SIGKILL: kl},
                 "never": {}}[how]
        now = asyncio.get_running_loop().time()
        self.pids[pid] = {"obeys": obeys, "dies": now + rng.choice([0, 1, 10, 100]) if rng.random() < 0.25 else None, "never": how == "never"}
        if o is not None:
            o.job = pid
        self.log("submit", o=o.n if o else 0, id=pid, user=bool(o), wrong=wrong, asked={"cores": -1, "mem": 0})
        return Answer(pid, None)

    # ------------------------------------------------------------ the engine's part
    def make(self):
        rng, c = self.rng, Config()
        name = BACKENDS[self.kind].__name__
        c.DaskGateway.backend_class = BACKENDS[self.kind]
        c.Proxy.externally_managed = True
        c.DaskGateway.address = "127.0.0.1:65535"
        c.DaskGateway.config_file = os.path.join(self.dir, "none.py")
        c.DBBackendBase.db_url = "sqlite://"
        self.url = "http://gw.example:%d/api" % self.cfg["port"]
        c[name].api_url = self.url
        if self.islocal:
            if self.cfg["clustersdir"]:
                c[name].clusters_directory = os.path.join(self.shared, "clusters")
            c[name].sigint_timeout, c[name].sigterm_timeout, c[name].sigkill_timeout = self.cfg["patience"]
        else:
            self.launcher, self.submit, self.cancel, self.status = ("/opt/x/launch", "/usr/x/submit", "/usr/x/cancel", "/usr/x/status")
            c[name].dask_gateway_jobqueue_launcher = self.launcher
            c[name].submit_command, c[name].cancel_command, c[name].status_command = self.submit, self.cancel, self.status
            if self.kind == "pbs":
                self.gwhost = "gw%d" % self.cfg["port"]
                c[name].gateway_hostname = self.gwhost
        err, sys.stderr = sys.stderr, open(os.devnull, "w")
        try:
            gw = _app.DaskGateway(config=c)
            gw.initialize([])
        finally:
            sys.stderr.close()
            sys.stderr = err
        return gw.backend

    def conf(self, o):
        c = o.owner
        if not hasattr(c, "frozen"):
            c.frozen = FrozenAttrDict(json.loads(json.dumps(self.backend.cluster_config_class(parent=self.backend, **c.conf).to_dict())))
        return c.frozen

    def staging(self, o):
        c = o.owner
        if self.islocal:
            return c.state.get("workdir")
        t = c.conf.get("staging_directory", "{home}/.dask-gateway/")
        home = self.users[c.user].pw_dir if c.user in self.users else "/nohome"
        return os.path.join(t.replace("{home}", home).replace("{username}", c.user), c.name)

    def view(self, o):
        """The engine's object, as of a (possibly restarted) gateway."""
        c = o.owner
        d = db_base.Cluster(id=c.n, name=c.name, username=c.user, token=c.token, options={}, config=self.conf(c), status=db_base.JobStatus.SUBMITTED,
                            target=db_base.JobStatus.RUNNING, state=json.loads(json.dumps(c.state)), scheduler_address=c.address if c.up else "", tls_cert=c.cert, tls_key=c.key, start_time=1)
        if not o.cluster:
            return d
        return db_base.Worker(id=o.n, name=o.name, cluster=d, status=db_base.JobStatus.SUBMITTED, target=db_base.JobStatus.RUNNING, state=json.loads(json.dumps(o.state)), start_time=1)

    def options(self):
        rng = self.rng
        mem = lambda: rng.choice([rng.randrange(10 << 10, 40 << 10), rng.randrange(10 << 20, 3000 << 20), 1 << rng.randrange(14, 41), rng.randrange(10 << 30, 1 << 40), (10 << 30) - 1, 10 << 30, (10 << 20) - 1, 10 << 20, "%dG" % rng.randrange(1, 40)])  # noqa: E731
        d = {"worker_cores": rng.choice([1, 1, 2, 7, 48]), "scheduler_cores": rng.choice([1, 1, 2, 5]), "worker_memory": mem(), "scheduler_memory": mem(),
             "environment": rng.choice([{}, {"A": "b"}, {"X Y": "1", "PATH_X": "/a:/b c", "Q": "it's \"q\",\nü"}]), "adaptive_period": rng.choice([3, 1.5]), "idle_timeout": rng.choice([0, 600])}
        if rng.random() < 0.4:
            d["worker_threads"] = rng.choice([1, 3])
        if rng.random() < 0.3:
            d["worker_cmd"], d["scheduler_cmd"] = ["/opt/env/bin/dask-worker", "--x"], "my-scheduler"
        if self.islocal:
            return d
        if rng.random() < 0.6:
            d["staging_directory"] = rng.choice(["{home}/.dask-gateway/", "{home}/a/b", os.path.join(self.shared, "{username}"), os.path.join(self.shared, "st/")])
        if rng.random() < 0.5:
            d["worker_setup"], d["scheduler_setup"] = rng.choice([("source env/bin/activate", "module load x"), ("echo 'a b'\nexport Z=\"1\"\n", "# only this")])
        for k in (("partition", "account", "qos") if self.kind == "slurm" else ("queue", "account", "project")):
            if rng.random() < 0.4:
                d[k] = k[:3] + str(rng.randrange(100))
        if self.kind == "pbs":
            d["use_stagein"] = rng.random() < 0.6
            if rng.random() < 0.4:
                d["worker_resource_list"] = "nodes=1:ppn={cores},mem={memory}"
            if rng.random() < 0.4:
                d["scheduler_resource_list"] = "select=1:mem={memory}:ncpus={cores}:gpu=1"
        return d

    async def start(self, o):
        rng = self.rng
        faults = {"slurm": ["sudo", "reject", "nocmd"], "pbs": ["sudo", "reject", "nocmd"], "local": ["nocmd"], "unsafe": ["nocmd"]}[self.kind] + ([] if o.cluster or self.islocal else ["stagefile"])
        o.fault = rng.choice(faults) if rng.random() < self.cfg["faults"] else None
        o.hit = False
        self.log("start", o=o.n)
        limit = rng.choice([0, 0.01, 0.05, 0.4, 2]) if rng.random() < self.cfg["aborts"] else 1000
        v = self.view(o)

        async def go():
            async for state in (self.backend.do_start_worker(v) if o.cluster else self.backend.do_start_cluster(v)):
                o.state = json.loads(json.dumps(state))
                v.state = state
                if rng.random() < 0.3:
                    await asyncio.sleep(0.02)
        t = asyncio.ensure_future(go())
        await asyncio.wait([t], timeout=limit)
        known = o.fault is not None or o.owner.user not in self.users and self.kind != "unsafe" or o.owner.wiped and self.islocal
        if not t.done():
            t.cancel()
            await asyncio.wait([t])
            self.log("abort", o=o.n, excused=not self.islocal)
            o.lost = not self.islocal
        elif t.exception():
            self.log("failed", o=o.n, fault=known, why=repr(t.exception())[:300])
        else:
            id = o.state.get("pid") if self.islocal else o.state.get("job_id")
            num = id if self.islocal else self.jobs.get(id, {}).get("num", -1)
            self.log("started", o=o.n, id=num if isinstance(num, int) else -1)
            o.up = True
        o.fault = None

    async def stop(self, o):
        rng = self.rng
        o.up = False
        for again in range(rng.choice([1, 1, 1, 2])):
            o.fault = rng.choice(["sudo", "cancelfail", "rmfail", "nocmd"] if not self.islocal else ["rmfail"]) if rng.random() < self.cfg["faults"] else None
            o.nofiles = o.hit = False
            if not o.cluster and rng.random() < 0.2 and self.staging(o) and os.path.isdir(self.staging(o)):
                REAL_RMTREE(self.staging(o))
            self.log("stop", o=o.n)
            v = self.view(o)
            t = asyncio.ensure_future(self.backend.do_stop_worker(v) if o.cluster else self.backend.do_stop_cluster(v))
            if self.islocal and rng.random() < 0.15:
                await asyncio.wait([t], timeout=rng.choice([0, 0.2, 3, 12]))
                if not t.done():  # the gateway crashes, and stops it again later
                    t.cancel()
                    await asyncio.wait([t])
                    if rng.random() < 0.5:
                        self.backend = self.make()
                    self.log("stop", o=o.n)
                    t = asyncio.ensure_future(self.backend.do_stop_worker(v) if o.cluster else self.backend.do_stop_cluster(v))
            await asyncio.wait([t])
            p = self.pids.get(o.job) if self.islocal else None
            self.log("stopped", o=o.n, raised=t.exception() is not None, fault=o.fault is not None, nolaunch=o.fault in ("sudo", "nocmd"), nofiles=o.nofiles,
                     dirty=not o.cluster and bool(self.traces_of(o)), alive=bool(p) and self.alive(o.job) and not p["never"], why=repr(t.exception())[:300])
            o.fault = None
            if rng.random() < 0.2:
                await asyncio.sleep(1)
        if not o.cluster:
            o.after = bool(o.nofiles)

    def traces_of(self, o):
        return [os.path.join(r, x) for r, ds, fs in os.walk(self.dir) for x in ds + fs if o.name in x]

    async def worker(self, o):
        rng = self.rng
        await self.start(o)
        await asyncio.sleep(rng.choice([100, 150] if self.cfg["many"] else [0, 1, 10]))
        await self.stop(o)

    async def cluster(self, o):
        rng = self.rng
        await asyncio.sleep(rng.choice([0, 0, 1, 5]))
        await self.start(o)
        if o.up and not self.islocal and rng.random() < 0.15:
            REAL_RMTREE(self.staging(o), ignore_errors=True)
            o.wiped = True
        ws = [w for w in self.objs if w.cluster is o]
        if o.up:
            await asyncio.gather(*[self.worker(w) for w in ws])
            await asyncio.sleep(rng.choice([0, 1, 20]))
        await self.stop(o)

    async def life(self):
        """Jobs end and are forgotten; the gateway is restarted; checks."""
        rng = self.rng
        while True:
            await asyncio.sleep(rng.choice([0.1, 0.5, 1] if self.cfg["many"] else [0.1, 0.5, 1, 3]))
            r = rng.random()
            if r < (0.1 if self.cfg["many"] else 0.25) and self.jobs:
                j = self.jobs[rng.choice(list(self.jobs))]
                if j["state"] == "alive":
                    j["state"] = "dead"
                elif j["state"] == "dead" and rng.random() < 0.3:
                    j["state"] = "purged"
            elif r < 0.35:
                self.backend = self.make()
            else:
                await self.check()

    async def check(self):
        rng = self.rng
        up = [o for o in self.objs if o.up]
        up = [o for o in up if bool(o.cluster) == (rng.random() < 0.5)] if rng.random() < 0.5 else up
        for group in ([o for o in up if not o.cluster], [o for o in up if o.cluster]):
            k = rng.randrange(len(group) + 1)
            if self.cfg["many"] and rng.random() < 0.7:  # sizes at which lists are likely split
                k = min(len(group), rng.choice([10, 16, 20, 25, 30, 32, 40, 50, 60, 64, 75, 80, 100, 120, 128]) + rng.choice([-1, 0, 1]))
            group = rng.sample(group, k)
            if not group:
                continue
            self.checkfault = rng.choice(["rc", "nocmd"]) if rng.random() < self.cfg["faults"] and not self.islocal else None
            self.answers = {}
            vs = [self.view(o) for o in group]
            try:
                got = await (self.backend.do_check_workers(vs) if group[0].cluster else self.backend.do_check_clusters(vs))
                got = [1 if x else 0 for x in got] or [9]
            except Exception:
                got = []
            if self.islocal:
                ans = [int(self.alive(o.job)) for o in group]
            else:
                # what it would have said of those it wasn't asked about
                truth = {"alive": 1, "dead": 0}
                ans = [self.answers.get(o.job, truth.get(self.jobs.get(o.job, {}).get("state"), 2)) for o in group]
            self.log("check", os=[o.n for o in group], ok=self.checkfault is None, answers=ans, got=got)

    async def go(self):
        rng = self.rng
        self.creds = None
        self.checkfault = None
        try:
            self.install()
            self.backend = self.make()
            for i in range(self.cfg["clusters"]):
                c = Obj(len(self.objs) + 1, "%032x" % rng.getrandbits(128))
                c.user = rng.choice(list(self.users)) if rng.random() > self.cfg["nobody"] else "nobody%d" % rng.randrange(10**9)
                c.token, c.conf, c.wiped = "%032x" % rng.getrandbits(128), self.options(), False
                c.cert, c.key = b"CERT %d" % rng.getrandbits(60), b"KEY %d" % rng.getrandbits(60)
                c.address = "tls://10.0.0.%d:%d" % (i, rng.randrange(10000, 60000))
                self.objs.append(c)
                for _ in range(self.cfg["many"] or rng.randrange(self.cfg["workers"] + 1)):
                    self.objs.append(Obj(len(self.objs) + 1, "%032x" % rng.getrandbits(128), c))
            life = asyncio.ensure_future(self.life())
            await asyncio.gather(*[self.cluster(o) for o in self.objs if not o.cluster])
            if life.done():
                life.result()
            life.cancel()
            await asyncio.wait([life])
            await asyncio.gather(*self.tasks)
            left = []
            for o in self.objs:
                if not o.cluster and not o.after:
                    for root, _, files in os.walk(self.dir):
                        for f in files:
                            with open(os.path.join(root, f), "rb") as fil:
                                if o.key in fil.read() and o.n not in left and self.ended(o):
                                    left.append(o.n)
            self.log("end", left=left)
        finally:
            self.restore()
            REAL_RMTREE(self.dir, ignore_errors=True)
        return {"kind": self.kind, "local": self.islocal, "patience": [x * 1000 for x in self.cfg["patience"]], "events": self.ev,
                "objs": [dict(zip(("cores", "mem"), (self.conf(o).worker_cores, -(-self.conf(o).worker_memory // 1024)) if o.cluster else (self.conf(o).scheduler_cores, -(-self.conf(o).scheduler_memory // 1024)))) for o in self.objs]}

    def ended(self, o):
        """Its last stop could remove files."""
        e = [e for e in self.ev if e["e"] == "stopped" and e["o"] == o.n]
        return e and not e[-1]["nolaunch"]


def case(seed):
    rng = random.Random(seed)
    kind = rng.choice(["slurm", "pbs", "local", "unsafe"][:3] * 3 + ["unsafe"])
    # job queues with many jobs, as many as fill a command line
    many = rng.randrange(51, 140) if kind in ("slurm", "pbs") and rng.random() < 0.04 else 0
    return {"seed": seed, "kind": kind, "many": many, "clusters": 1 if many else rng.choice([1, 2, 3]), "workers": rng.choice([0, 2, 4]), "faults": rng.choice([0, 0, 0.1] if many else [0, 0.2, 0.4]),
            "aborts": rng.choice([0, 0, 0.3]), "nobody": rng.choice([0, 0, 0.3]), "port": rng.randrange(1000, 9999), "server": rng.choice(["pbs01", "s.ex.org"]),
            "clustersdir": rng.random() < 0.5, "patience": rng.choice([[10, 5, 5], [1, 1, 1], [3, 10, 2]])}


def one(cfg):
    random.seed(cfg["seed"])
    return vloop.run(Run(cfg).go)


def run(c):
    big = c.thorough
    if not os.environ.get("NOMODEL"):
        c.model(tlc.model_check("JobsMC", "JobsBig.cfg" if big else "JobsMC.cfg"), "Jobs")
        c.model(tlc.model_check("ProcStopMC", "ProcStopMC.cfg"), "ProcStop")
    n = int(os.environ.get("N", 0)) or (8000 if big else 600)
    cases = [case(c.seed * 1000000 + i) for i in range(n)]
    traces = par.pmap(one, cases, chunk=4)
    kinds = {}
    for tr in traces:
        for e in tr["events"]:
            k = tr["kind"] + " " + e["e"]
            kinds[k] = kinds.get(k, 0) + 1
    c.note(events=kinds)
    c.sample({"case": cases[0], "events": traces[0]["events"][:6]})
    v = tlc.validate_parallel("JobsTrace", "JobsTrace.cfg", traces)
    c.traces_ok(len(v["verdicts"]), v["states"], v["distinct"])
    for cs, tr, r in zip(cases, traces, v["verdicts"]):
        why = [w if isinstance(w, dict) else {"what": w, "at": 0} for w in r["why"]]
        if why:
            f = min(why, key=lambda w: w["at"])
            c.violation(f["what"], {"case": cs, "at": f["at"], "all": why, "trace": tr})


if __name__ == "__main__":
    report.main(run)
