"""C25: the client (spec/Client.tla)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import par, clientworld, clientreal, report, tlc  # noqa: E402


def run(c):
    big = c.thorough
    if not os.environ.get("NOMODEL"):
        for cfg in ["ClientBig.cfg", "ClientAttached.cfg"] if big else ["ClientMC.cfg", "ClientAttached.cfg"]:
            c.model(tlc.model_check("ClientMC", cfg), "Client")
    n = int(os.environ.get("N", 0)) or (24000 if big else 2000)
    cases = [clientworld.case(c.seed * 1000000 + i) for i in range(n)]
    procs = [clientreal.case(c.seed * 1000000 + i) for i in range(int(os.environ.get("P", 48)) * (12 if big else 1))]
    traces = par.pmap(clientworld.one, cases, chunk=8) + par.pmap(clientreal.one, procs, chunk=1)
    cases += procs
    c.note(coroutines=n, processes=len(procs))
    kinds = {}
    for tr in traces:
        for e in tr["events"]:
            k = {"req": "request " + e.get("verb", ""), "up": "start " + e.get("out", ""), "shut": "close " + e.get("out", ""),
                 "ret": "call " + e.get("out", "")}.get(e["e"], e["e"])
            kinds[k] = kinds.get(k, 0) + 1
    c.note(events=kinds)
    c.sample({"case": cases[0], "events": traces[0]["events"][:6]})
    for i in range(0, len(traces), 2000):
        v = tlc.validate_parallel("ClientTrace", "ClientTrace.cfg", traces[i:i + 2000])
        c.traces_ok(len(v["verdicts"]), v["states"], v["distinct"])
        for cs, tr, r in zip(cases[i:], traces[i:], v["verdicts"]):
            why = [w if isinstance(w, dict) else {"what": w, "at": 0} for w in r["why"]]
            if why:
                f = min(why, key=lambda w: w["at"])
                c.violation(f["what"], {"case": cs, "at": f["at"], "all": why, "trace": tr})


if __name__ == "__main__":
    report.main(run)
