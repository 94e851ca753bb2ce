"""Outcome of one check: VIOLATION / KNOWN-FINDING lines, replay files and the evidence file."""
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = os.path.join(ROOT, "evidence", "replay")


def known_findings():
    path = os.path.join(ROOT, "known_findings.jsonl")
    res = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    res.append(json.loads(line))
    return res


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.perf_counter()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = {}
        self.thorough = tier == "thorough"
        self._known = [k for k in known_findings() if k.get("property") == prop and k.get("kind") == "known"]

    # -- counting -------------------------------------------------------------
    def model(self, r, name=None):
        self.states += r.distinct
        self.transitions += r.states
        if name:
            self.extra.setdefault("models", {})[name] = {"distinct": r.distinct, "generated": r.states}

    def traces_ok(self, n, states=0, distinct=0):
        self.traces += n
        self.states += distinct
        self.transitions += states

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def note(self, **kw):
        self.extra.update(kw)

    def log(self, msg):
        print("[%s %6.1fs] %s" % (self.prop, time.perf_counter() - self.t0, msg), flush=True)

    # -- findings ---------------------------------------------------------------
    def violation(self, what, replay=None, signature=None):
        """``signature`` identifies the specific failing input/history for known findings."""
        for k in self._known:
            if signature is not None and k.get("signature") == signature:
                if signature not in self.known:
                    self.known[signature] = k
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k.get("what", what)), flush=True)
                return
        n = len(self.violations)
        self.violations.append(what)
        if n >= 5:
            return
        os.makedirs(REPLAY, exist_ok=True)
        path = os.path.join(REPLAY, "%s-%d.json" % (self.prop, n))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "replay": replay}, f,
                      indent=1, default=repr)
        print("  violated: %s" % (what,), flush=True)
        print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(path, ROOT)), flush=True)

    def finish(self, level="model_checking"):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.perf_counter() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        self.log("%s: states=%d transitions=%d traces=%d violations=%d" % (
            "VIOLATED" if self.violations else "ok", self.states, self.transitions, self.traces,
            len(self.violations)))
        return 1 if self.violations else 0


def main(run_fn):
    """``run_fn(check)`` for argv: <property> [--tier quick|thorough]."""
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a = ap.parse_args()
    if "PYTHONHASHSEED" not in os.environ:
        # the order of sets of names is part of what a run does: the same seed gives the same run
        os.environ["PYTHONHASHSEED"] = str(a.seed % 2 ** 32)
        os.execv(sys.executable, [sys.executable] + sys.argv)
    c = Check(a.property, a.tier, a.seed)
    try:
        run_fn(c)
    except Exception as exc:
        traceback.print_exc()
        from . import par, repo
        if isinstance(exc, par.RepoError) or repo.in_repo(exc.__traceback__):
            c.violation("the code under test raised: %s" % (str(exc).splitlines() or [repr(exc)])[0],
                        traceback.format_exc())
        if c.violations:
            sys.exit(c.finish())
        print("ERROR: the check could not run", flush=True)
        sys.exit(2)
    sys.exit(c.finish())
