import json, os, re
from schedcommon import schedcheck
import vf


def free(ck, scs, extra):
    """the threads run freely in a build with the race detector: a data race inside the store is a violation"""
    binary = vf.gobuild("objh", race=True)
    env = dict(MODE="free", EXTRA=str(extra), GORACE="halt_on_error=1 exitcode=66")
    try:
        _, o, _ = vf.run([binary], 300, stdin="\n".join(json.dumps(x) for x in scs) + "\n", env=env)
    except vf.HarnessDied as ex:
        m = re.search(r"^(WARNING: DATA RACE|fatal error: concurrent map .*)$", ex.err, re.M)
        if m and "golibs/sss/" in ex.err:
            ck.violation("concurrent calls are not safe: " + m.group(1).lower(), dict(stack=ex.err[ex.err.find(m.group(0)):][:6000]), key="race")
            return
        raise vf.ToolError("harness objh failed rc=%s: %s" % (ex.rc, ex.err[-3000:]))
    recs = [json.loads(l) for l in o.splitlines() if l.strip()]
    v = vf.validate("TraceObjs", "TraceObjs.cfg", [r["ev"] for r in recs], shards=8)
    ck.cov["states"] += v["states"]
    ck.cov["transitions"] += v["transitions"]
    ck.traces(v["accepted"])
    ck.cov["free_runs"] = len(recs)
    for x in v["rejected"][:1]:
        ck.violation("%s (threads running freely)" % x["why"], dict(trace=recs[x["trace"]]["ev"][:x["pos"]], rejected_at=x["pos"]), key=x["why"])


def check(ck):
    T = vf.THOROUGH
    solo = vf.generate("GenObjs", "GenObjs.cfg", 4000 if T else 400, 3, env=dict(PROFILE="solo"), seed=vf.SEED * 31 + 5)
    many = vf.generate("GenObjs", "GenObjs.cfg", 600 if T else 150, 3, env=dict(PROFILE="many"), seed=vf.SEED * 37 + 7)
    specs = [("Objs", "Objs.cfg")] + ([("Objs", "ObjsB.cfg"), ("Objs", "ObjsT.cfg")] if T else [])
    schedcheck(ck, "objh", ["golibs/sss/inmem"], specs, ("GenObjs", "GenObjs.cfg", dict(PROFILE="many")), 1500 if T else 250,
               ("TraceObjs", "TraceObjs.cfg"), extra=60 if T else 20, single=60 if T else 20, more=solo)
    free(ck, many, 20 if T else 6)
