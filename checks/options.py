"""C17, C18: cluster options (spec/Options.tla) and resource limits (spec/Limits.tla)."""
import copy
import json
import math
import os
import random
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import par, report, tlc, vloop  # noqa: E402
from harness.accessworld import AccessWorld  # noqa: E402
from dask_gateway_server import options as O  # noqa: E402

BIG = 2 * 10 ** 9
SETTINGS = ["worker_cores", "scheduler_cores", "worker_memory", "scheduler_memory", "idle_timeout", "adaptive_period",
            "worker_cmd", "scheduler_cmd", "worker_threads", "environment", "cluster_max_workers"]


def enc(x):
    """A value as the specification sees it."""
    if x is None:
        return {"ty": "null", "n": 0, "s": "null"}
    if isinstance(x, bool):
        return {"ty": "bool", "n": 0, "s": "true" if x else "false"}
    if isinstance(x, int):
        return {"ty": "int", "n": x * 1000 if abs(x) < BIG // 1000 else BIG if x > 0 else -BIG,
                "s": str(x) if abs(x) < 2 ** 53 else str(int(float(x)))}
    if isinstance(x, float):
        if math.isnan(x):
            return {"ty": "nan", "n": 0, "s": "NaN"}
        if math.isinf(x):
            return {"ty": "float", "n": BIG if x > 0 else -BIG, "s": "Infinity" if x > 0 else "-Infinity"}
        return {"ty": "float", "n": max(-BIG, min(BIG, int(round(x * 1000)))),
                "s": str(int(x)) + ".0" if x == int(x) else repr(x)}
    if isinstance(x, str):
        return {"ty": "str", "n": 0, "s": x}
    return {"ty": "list" if isinstance(x, (list, tuple)) else "map", "n": 0, "s": json.dumps(x, sort_keys=True)}


def dec(v):
    """The Python value of one of the specification's values."""
    if v["ty"] == "str":
        return v["s"]
    return json.loads(v["s"])


# ------------------------------------------------------------------ declarations
def field(d):
    kw = {"default": dec(d["dflt"])}
    if d["target"] != d["field"]:
        kw["target"] = d["target"]
    if d["kind"] in ("int", "float"):
        num = (lambda n: n // 1000) if d["kind"] == "int" else (lambda n: n / 1000)
        if d["lo"]:
            kw["min"] = num(d["lo"][0])
        if d["hi"]:
            kw["max"] = num(d["hi"][0])
    if d["kind"] == "select":
        cs = []
        for c in d["choices"]:
            v = dec(c["val"])
            cs.append(c["key"] if v == c["key"] else (c["key"], v))
        return O.Select(d["field"], cs, **kw)
    return {"string": O.String, "bool": O.Bool, "int": O.Integer, "float": O.Float, "mapping": O.Mapping}[d["kind"]](
        d["field"], **kw)


class Handler:
    def __init__(self, kind, rng):
        self.kind, self.rng, self.calls = kind, rng, []

    def result(self, o, user):
        seen = {k: enc(v) for k, v in dict(o).items()}
        call = {"hin": seen, "huser": user, "hout": {}, "ok": False}
        self.calls.append(call)
        if self.kind == "raises":
            raise ValueError("no")
        out = {}
        for k, v in dict(o).items():
            if k in SETTINGS and self.kind != "drops":
                out[k] = v
        if self.kind == "mutates":
            for v in dict(o).values():
                if isinstance(v, dict):
                    v["added"] = "x%d" % len(self.calls)
        if self.kind == "user":
            out["environment"] = {"USER": user or "?"}
        if self.kind == "fixed":
            out = {"worker_cores": 3, "scheduler_cmd": ["a", "b"], "worker_memory": "0.5G", "idle_timeout": 5}
        if self.kind == "invalid" and self.rng.random() < 0.6:
            out.update(self.rng.choice([{"worker_cores": 0}, {"worker_cores": "2"}, {"idle_timeout": -1.0},
                                        {"environment": "x"}, {"cluster_max_workers": -1}, {"worker_cmd": []},
                                        {"worker_memory": "much"}, {"worker_cores": 1.5}, {"worker_threads": 0.5}]))
        call["hout"] = {k: enc(v) for k, v in out.items()}
        call["ok"] = True
        return out

    def __deepcopy__(self, memo):    # traitlets copies configuration values
        return self

    def one(self, options):
        return self.result(options, None)

    def two(self, options, user):
        return self.result(options, user.name)


def build(case, rng):
    h = Handler(case["handler"], rng)
    fn = None if case["handler"] == "none" else h.two if case["handler"] in ("user", "two") else h.one
    by = {}
    for u, fs in case["decls"].items():
        by[u] = O.Options(*[field(d) for d in fs], handler=fn)
    if len(by) == 1:
        return h, list(by.values())[0]
    if rng.random() < 0.5:
        return h, lambda user: by[user.name]

    async def per_user(user):
        return by[user.name]
    return h, per_user


async def drive(case):
    rng = random.Random(case["seed"])
    h, opts = build(case, rng)
    w = AccessWorld({"auth": "simple", "options": opts, "admin": {k: copy.deepcopy(v) for k, v in case["admin"].items()}})
    evs = []
    try:
        await w.up()
        for op in case["ops"]:
            user = op["user"]
            hdr = {"Authorization": w.basic(user)}
            if op["e"] == "spec":
                r = await w.req("GET", "/api/v1/options", hdr)
                fs = []
                for f in (r.json or {}).get("cluster_options", []):
                    s = f["spec"]
                    b = lambda x: [] if x is None else [enc(x)["n"]]
                    fs.append({"field": f["field"], "dflt": enc(f["default"]), "keys": s.get("options", []),
                               "kind": s["type"], "lo": b(s.get("min")), "hi": b(s.get("max"))})
                evs.append({"e": "spec", "user": user, "st": r.status, "fields": fs})
                continue
            h.calls.clear()
            before = {c[1] for c in w.scan()[0]}
            r = await w.req("POST", "/api/v1/clusters/", hdr, body=op["raw"] if "raw" in op else
                            json.dumps({"cluster_options": op["body"]}).encode())
            new = {c[1] for c in w.scan()[0]} - before
            e = {"e": "create", "user": user, "object": op["object"], "st": r.status, "created": bool(new),
                 "req": {k: enc(v) for k, v in op["body"].items()} if op["object"] else {},
                 "called": bool(h.calls), "hin": {}, "huser": user, "hout": {}, "hok": False}
            if h.calls:
                c = h.calls[-1]
                e.update(hin=c["hin"], huser=c["huser"] or user, hout=c["hout"], hok=c["ok"])
            if new:
                m = w.gw.backend.db.name_to_cluster[new.pop()]
                # what the other processes of the cluster are given is what was stored
                config = json.loads(json.dumps(dict(m.config)))
                e["stored"] = {k: enc(v) for k, v in m.options.items()}
                e["config"] = {k: enc(config.pop(k, None)) for k in SETTINGS}
                e["others"] = json.dumps(config, sort_keys=True)
            evs.append(e)
        return {"decls": case["decls"], "handler": case["handler"], "mutates": case["handler"] == "mutates",
                "admin": {k: enc(v) for k, v in case["admin"].items()}, "events": evs}
    finally:
        w.close()


def record(case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return vloop.run(drive, case)


ADMIN = {"worker_cores": [1, 3], "scheduler_cores": [2], "worker_memory": ["1 G", "512 M", 123456789], "scheduler_memory": ["4G"],
         "idle_timeout": [0, 1.5, 60], "adaptive_period": [1], "worker_cmd": ["my-worker", ["a", "b"]], "scheduler_cmd": ["s"],
         "worker_threads": [5], "environment": [{"ADMIN": "1"}, {}], "cluster_max_workers": [0, 7]}


def random_admin(rng):
    return {k: rng.choice(v) for k, v in ADMIN.items() if rng.random() < 0.3}


def fld(rng, name, kind):
    d = {"field": name, "target": name, "kind": kind, "lo": [], "hi": [], "choices": []}
    if kind == "int":
        d["lo"], d["hi"] = rng.choice([([], []), ([1000], []), ([], [8000]), ([1000], [8000]), ([2000], [2000])])
        d["dflt"] = enc(2)
    elif kind == "float":
        d["lo"], d["hi"] = rng.choice([([], []), ([0], []), ([], [2500]), ([500], [2500])])
        d["dflt"] = enc(rng.choice([1.0, 1.5, 2.25]))
    elif kind == "string":
        d["dflt"] = enc(rng.choice(["", "d"]))
    elif kind == "bool":
        d["dflt"] = enc(rng.random() < .5)
    elif kind == "mapping":
        d["dflt"] = enc(rng.choice([{}, {"k": "v"}, {"k": {"n": 1}}]))
    else:
        vals = {"worker_memory": ["1 G", "4G", 1024], "scheduler_memory": ["2 G", "100K"], "scheduler_cmd": ["x", ["y", "z"]],
                "worker_cores": [1, 2], "idle_timeout": [0, 2.5]}.get(name, ["x", "y"])
        d["choices"] = [{"key": "k%d" % i if rng.random() < .7 else str(v), "val": enc(v)} for i, v in enumerate(vals)]
        d["dflt"] = enc(d["choices"][rng.randrange(len(vals))]["key"])
    return d


def random_fields(rng):
    kinds = {"worker_cores": ["int", "select"], "scheduler_cores": ["int"], "worker_memory": ["select"], "scheduler_memory": ["select"],
             "idle_timeout": ["float", "select"], "adaptive_period": ["float"], "worker_cmd": ["string"], "scheduler_cmd": ["select"],
             "environment": ["mapping"], "cluster_max_workers": ["int"], "flag": ["bool"], "note": ["string"]}
    names = rng.sample(sorted(kinds), rng.choice([0, 1, 2, 4]))
    fs = []
    for n in names:
        d = fld(rng, n, rng.choice(kinds[n]))
        if rng.random() < 0.3:
            d["field"] = rng.choice(["x_", "my_", "worker_"]) + n
        if d["field"] not in {f["field"] for f in fs}:
            fs.append(d)
    return fs


POOL = [0, 1, 2, 3, 8, 9, -1, 10 ** 9, 10 ** 30, 0.5, 0.4, 1.0, 2.5, 2.6, -0.0, 1e300, float("nan"), float("inf"), float("-inf"), True, False,
        None, "", "a", "1", "nan", "true", "k0", "k1", "k9", "K0", "x", "1 G", {}, {"k": "w"}, {"k": "v", "n": None}, [], ["a"], [1], [[]]]


def random_request(rng, fs):
    req = {}
    for d in fs:
        if rng.random() < 0.65:
            if rng.random() < 0.6:
                good = {"int": [1, 2, 3, 8], "float": [1, 0.5, 2.5, 2], "string": ["a", ""], "bool": [True, False],
                        "mapping": [{}, {"k": "w"}, {"z": {"y": [1, 2]}}], "select": [c["key"] for c in d["choices"]]}[d["kind"]]
                req[d["field"]] = rng.choice(good)
            else:
                req[d["field"]] = rng.choice(POOL)
    if rng.random() < 0.12:
        req[rng.choice(["nope", "", "worker_cores", "environment", "cluster_max_memory", "parent", "config", "self", "handler",
                        "Worker_cores"])] = rng.choice([1, {}, "x"])
    return req


def random_case(rng):
    users = ["alice"] if rng.random() < 0.6 else ["alice", "bob"]
    case = {"decls": {u: random_fields(rng) for u in users}, "admin": random_admin(rng), "seed": rng.random(),
            "handler": rng.choice(["none", "none", "one", "two", "user", "drops", "fixed", "mutates", "raises", "invalid"]), "ops": []}
    for _ in range(rng.choice([6, 14])):
        u = rng.choice(users)
        x = rng.random()
        if x < 0.1:
            case["ops"].append({"e": "spec", "user": u})
        elif x < 0.17:
            case["ops"].append({"e": "create", "user": u, "object": False, "body": rng.choice(["abc", 5, [1], [["a", 1]], True, 1.5])})
        elif x < 0.21:
            case["ops"].append({"e": "create", "user": u, "object": False, "body": None,
                                "raw": rng.choice([b"", b"{", b"[]", b"5", b"null", b"\"x\"", b"{\"cluster_options\": {", b"\xff\xfe"])})
        else:
            case["ops"].append({"e": "create", "user": u, "object": True, "body": random_request(rng, case["decls"][u])})
    return case


def options_check(c, rng):
    c.model(tlc.model_check("OptionsMC", "OptionsMC.cfg"), "Options")
    r, vectors = tlc.table("OptionsMC", "OptionsMC.cfg", env={"EMIT": 1})
    c.transitions += r.states
    # one gateway per declaration, all its requests in turn
    groups = {}
    for v in vectors:
        groups.setdefault(json.dumps(v["decls"]), []).append({k: dec(x) for k, x in dict(v["req"]).items()})
    cases = []
    for k, reqs in sorted(groups.items()):
        rng.shuffle(reqs)
        ops = [{"e": "spec", "user": "alice"}] + [{"e": "create", "user": "alice", "object": True, "body": q} for q in reqs]
        ops += [{"e": "spec", "user": "alice"}]
        cases.append({"decls": {"alice": json.loads(k)}, "admin": random_admin(rng), "seed": rng.random(),
                      "handler": rng.choice(["none", "none", "one", "two", "user", "mutates"]), "ops": ops})
    nvec = len(cases)
    cases += [random_case(rng) for _ in range(350 if not c.thorough else 5000)]
    traces = par.pmap(record, cases, chunk=8)
    v = tlc.validate_parallel("OptionsTrace", "OptionsTrace.cfg", traces)
    c.traces_ok(len(traces), v["states"], v["distinct"])
    evs = [e for t in traces for e in t["events"] if e["e"] == "create"]
    c.note(declarations_from_tlc=nvec, requests_from_tlc=len(vectors), random_cases=len(cases) - nvec, requests=len(evs),
           created=sum(e["created"] for e in evs), refused=sum(not e["created"] for e in evs))
    c.sample({"decls": cases[-1]["decls"], "events": traces[-1]["events"][:4]})
    for i, ver in enumerate(v["verdicts"]):
        if not ver["ok"]:
            evs = traces[i]["events"][:max(ver["at"], 1)]
            c.violation("%s (event %d: %s)" % ("; ".join(ver["why"]), ver["at"], evs[-1]), {"case": cases[i], "events": evs})


# ------------------------------------------------------------------ C18
NAMES = ["ms", "mw", "mm", "cs", "cw", "cm", "n"]
SETTING = {"ms": "scheduler_memory", "mw": "worker_memory", "mm": "cluster_max_memory", "cs": "scheduler_cores", "cw": "worker_cores",
           "cm": "cluster_max_cores", "n": "cluster_max_workers"}
MEM = 2 ** 29        # memory unit; a unit of cores is a quarter
UNSET, NONE = -2, -1


def value(rng, x, v):
    if v == NONE:
        return None
    if x == "n":
        return v
    if x[0] == "c":
        v = v / 4
        return int(v) if v == int(v) and rng.random() < .7 or x != "cm" and v == int(v) else v
    forms = [v * MEM, "%sG" % (v / 2), "%d M" % (v * 512), "%d K" % (v * 2 ** 19), float(v * MEM)]
    if v % 2 == 0:
        forms += ["%d G" % (v // 2), "%dG" % (v // 2)]
    return rng.choice(forms)


def limit_case(vec):
    """One vector of LimitsMC on the real classes: [kube, seed, admin, over, refused, limit] -> None or what is wrong."""
    from dask_gateway_server.backends.base import Backend, ClusterConfig, PublicException
    from dask_gateway_server.backends.kubernetes.backend import KubeClusterConfig
    from dask_gateway_server.models import User
    from traitlets.config import Config
    kube, seed, admin, over, refused, limit = vec
    rng = random.Random(seed)
    cfg = Config()
    adm = {SETTING[x]: value(rng, x, v) for x, v in zip(NAMES, admin) if v != UNSET}
    for k in rng.sample(sorted(adm), len(adm)):
        sec = cfg.KubeClusterConfig if kube and rng.random() < .5 else cfg.ClusterConfig
        setattr(sec, k, adm[k])
    keys = [x for x in NAMES if over[NAMES.index(x)] != UNSET]
    rng.shuffle(keys)
    ovr = {SETTING[x]: value(rng, x, over[NAMES.index(x)]) for x in keys}

    def handler(options):
        return dict(ovr)
    cfg.Backend.cluster_options = O.Options(handler=handler)
    b = Backend(config=cfg)
    b.cluster_config_class = KubeClusterConfig if kube else ClusterConfig
    coro = b.process_cluster_options(User("alice"), {})
    try:
        coro.send(None)
        return {"what": "waits", "admin": adm, "over": ovr}
    except StopIteration as exc:
        conf = json.loads(json.dumps(exc.value[1].to_dict()))
        got = conf["cluster_max_workers"]
        got = (False, NONE if got is None else got)
        wrong = [k for k in ovr if k != "cluster_max_workers" and conf[k] != exp(ovr[k])]
        if not refused and got == (False, limit) and not wrong:
            return None
        text = "limit %s%s" % (got[1], " and %s" % wrong if wrong else "")
    except PublicException as exc:
        if refused:
            return None
        text = "refused: %s" % exc
    finally:
        coro.close()
    return {"class": "KubeClusterConfig" if kube else "ClusterConfig", "administrator": adm, "handler": ovr,
            "expected": "refused" if refused else "limit %s" % limit, "got": text}


def exp(v):
    return v if not isinstance(v, str) else int(float(v[:-1]) * {"K": 2 ** 10, "M": 2 ** 20, "G": 2 ** 30}[v[-1]])


def limit_cases(vecs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return [r for r in map(limit_case, vecs) if r]


def limits_check(c, rng):
    vecs, seen = [], set()
    for cfg in ("LimitsMem", "LimitsCores", "LimitsFrac"):
        r, vs = tlc.table("LimitsMC", cfg + ".cfg", env={"EMIT": 1})
        c.model(r, cfg)
        vecs += vs
    for cfg in ("LimitsAll", "LimitsAllInt"):
        r, vs = tlc.behaviours("LimitsMC", cfg + ".cfg", 1200 if not c.thorough else 40000, 9, rng.randrange(10 ** 6), env={"EMIT": 1})
        c.transitions += r.states
        vecs += vs
    jobs = []
    for admin, over, refused, limit in vecs:
        k = (tuple(admin), tuple(over))
        if k in seen:
            continue
        seen.add(k)
        whole = all(f[i] < 0 or f[i] % 4 == 0 for f in (admin, over) for i in (3, 4))
        for kube in ([True, False] if whole else [True]):
            for _ in range(1 if not c.thorough else 4):
                jobs.append([kube, rng.random(), admin, over, refused, limit])
    rng.shuffle(jobs)
    if not c.thorough:
        jobs = jobs[:100000]
    res = [x for xs in par.pmap(limit_cases, [jobs[i:i + 500] for i in range(0, len(jobs), 500)], chunk=4) for x in xs]
    c.traces_ok(len(jobs))
    c.note(combinations=len(seen), constructed=len(jobs), refused=sum(j[4] for j in jobs))
    c.sample({"vector": dict(zip(["kube", "seed", "admin", "over", "refused", "limit"], jobs[0]))})
    for x in res:
        c.violation("expected %(expected)s, got %(got)s" % x, x)


def run(c):
    rng = random.Random(c.seed * 101 + int(c.prop[1:]))
    if c.prop == "C17":
        options_check(c, rng)
    else:
        limits_check(c, rng)
        from checks import forward
        forward.sizes_check(c, rng)


if __name__ == "__main__":
    report.main(run)
