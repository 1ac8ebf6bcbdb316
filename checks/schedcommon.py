"""Concurrent components: scenarios generated by TLC run in the real code under a controlled scheduler; the traces of
observed events are validated against the specification of the component."""
import collections, json
import vf


def schedcheck(ck, pkg, instr, specs, gen, scenarios, trace, extra, single, procs=8, depth=4, shards=8, timeout=600, more=(), build=None):
    """specs: [(module, cfg)]; gen: (module, cfg); trace: (module, cfg)"""
    built = vf.parallel(lambda: vf.gobuild(pkg, instrument=instr, **(build or {})),
                        lambda: vf.generate(gen[0], gen[1], scenarios, depth, env=dict(gen[2]) if len(gen) > 2 else None),
                        *[lambda s=s: vf.model_check(s[0], s[1], timeout=800, workers="4") for s in specs])
    binary, scs = built[0], list(more) + built[1]
    for r in built[2:]:
        ck.spec(r)
    procs = min(procs, len(scs))
    parts = [scs[i::procs] for i in range(procs)]
    outs = vf.parallel(*[lambda p=p: vf.run_real(ck, [binary], p, timeout=timeout,
                                                 env=dict(EXTRA=str(extra), SINGLE=str(single))) for p in parts])
    recs, src = [], []
    for p, o in zip(parts, outs):
        for r in o or ():
            recs.append(r)
            src.append(p[r["sc"]])
    if not recs:
        if ck.violations:
            return
        raise vf.ToolError("no traces recorded")
    v = vf.validate(trace[0], trace[1], [r["ev"] for r in recs], shards=shards, timeout=800)
    ck.cov["states"] += v["states"]
    ck.cov["transitions"] += v["transitions"]
    ck.traces(v["accepted"])
    ck.cov["scenarios"] = ck.cov.get("scenarios", 0) + len(scs)
    ck.cov["distinct_schedules"] = ck.cov.get("distinct_schedules", 0) + len(recs)
    ev = collections.Counter(e["e"] for r in recs for e in r["ev"])
    ck.cov["events"] = dict(collections.Counter(ck.cov.get("events", {})) + ev)
    for r in recs[:2]:
        ck.sample(dict(plan=r.get("plan"), ev=r["ev"][:12]))
    seen = set()
    for x in v["rejected"]:
        if x["why"] in seen:
            continue
        seen.add(x["why"])
        r = recs[x["trace"]]
        ck.violation("%s (schedule %s)" % (x["why"], json.dumps(r.get("plan"))),
                     dict(scenario=src[x["trace"]], plan=r.get("plan"), trace=r["ev"][:x["pos"]], rejected_at=x["pos"]), key=x["why"])
    return recs
