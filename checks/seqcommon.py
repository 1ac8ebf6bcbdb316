"""Sequential histories generated by TLC, replayed by a harness in the real code; every recorded trace (a list of events
per behaviour) is validated by TLC against the trace specification."""
import collections, json
import vf


def seqcheck(ck, pkg, specs, gens, trace, instr=(), extra=(), build=None, env=None, timeout=700, procs=8, shards=8, single=False, brief=400, tenv=None):
    """specs: [(module, cfg)]; gens: [(module, cfg, number, depth, env)]; trace: (module, cfg). A harness line is a trace, or
    {"b": index of the behaviour, "ev": trace} if it makes several traces of a behaviour (single=True)."""
    built = vf.parallel(lambda: vf.gobuild(pkg, instrument=instr, **(build or {})),
                        *([lambda s=s: vf.model_check(s[0], s[1], timeout=800, workers="4") for s in specs]
                          + [lambda g=g, i=i: vf.generate(g[0], g[1], g[2], g[3], env=dict(g[4]), seed=vf.SEED * 7919 + 17 * i)
                             for i, g in enumerate(gens)]))
    for r in built[1:1 + len(specs)]:
        ck.spec(r)
    behs = [b for g in built[1 + len(specs):] for b in g] + list(extra)
    procs = min(procs, len(behs))
    parts = [list(range(k, len(behs), procs)) for k in range(procs)]
    outs = vf.parallel(*[lambda p=p: vf.run_real(ck, [built[0]], [behs[i] for i in p], timeout=timeout, env=env) for p in parts])
    traces, src = [], []
    for p, o in zip(parts, outs):
        for k, r in enumerate(o or ()):
            traces.append(r["ev"] if single else r)
            src.append(behs[p[r["b"] if single else k]])
    if not traces:
        if ck.violations:
            return
        raise vf.ToolError("no traces recorded")
    v = vf.validate(trace[0], trace[1], traces, shards=shards, timeout=800, env=tenv)
    ck.cov["states"] += v["states"]
    ck.cov["transitions"] += v["transitions"]
    ck.traces(v["accepted"])
    ck.cov["histories"] = ck.cov.get("histories", 0) + len(behs)
    ev = collections.Counter(e.get("e", "?") for t in traces for e in t)
    ck.cov["events"] = dict(collections.Counter(ck.cov.get("events", {})) + ev)
    for t in traces[:2]:
        ck.sample([{k: x for k, x in e.items() if len(json.dumps(x)) < 120} for e in t[:8]])
    seen = set()
    for r in v["rejected"]:
        if r["why"] in seen:
            continue
        seen.add(r["why"])
        e = traces[r["trace"]][r["pos"] - 1]
        b = {k: (e[k] if len(json.dumps(e[k])) < brief else "...") for k in e}
        ck.violation("%s: %s" % (r["why"], json.dumps(b)),
                     dict(behaviour=src[r["trace"]], position=r["pos"], trace=traces[r["trace"]][:r["pos"]]), key=r["why"])
    return traces
