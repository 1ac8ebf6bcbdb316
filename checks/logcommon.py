"""C01..C06: the log store. Histories generated from GenLog.tla are replayed on the real stack (harness/logh); the
recorded executions are checked against SolarisLog.tla's record-level meaning by TraceLog.tla."""
import collections, json
import vf

INSTR = ['pkg/storage/logfs', 'pkg/storage/chunkfs', 'pkg/storage/buntdb', 'pkg/storage/cache', 'golibs/container/lru']


def logcheck(ck, profiles, specs, extra=(), depth=28, noise=0, prop=None, env=None):
    """profiles: {name: number of behaviours}; specs: MCLog configurations"""
    seeds = {}
    for pr, n in profiles.items():
        per = 60
        seeds[pr] = [min(per, n - k) for k in range(0, n, per)]
    jobs = [(pr, i, m) for pr, ms in seeds.items() for i, m in enumerate(ms)]
    built = vf.parallel(lambda: vf.gobuild('logh', instrument=INSTR),
                        *[lambda c=c: vf.model_check('MCLog', c, timeout=800, workers="4") for c in specs])
    binary = built[0]
    for r in built[1:]:
        ck.spec(r)
    behs = []
    for k in range(0, len(jobs), 6):
        part = vf.parallel(*[lambda j=j: vf.generate('GenLog', 'GenLog.cfg', j[2], depth,
                                                     seed=vf.SEED * 7919 + 101 * j[1] + 13, env={'PROFILE': j[0]})
                             for j in jobs[k:k + 6]])
        for p in part:
            behs += p
    behs += list(extra)
    traces = vf.run_real(ck, [binary], behs, timeout=700, env=env)
    if traces is None:
        return
    if noise:
        # some of the histories again, while other goroutines make ids all the time
        t2 = vf.run_real(ck, [binary], behs[:noise], timeout=700, env={'NOISE': '1'})
        if t2 is None:
            return
        traces += t2
        behs = behs + behs[:noise]
    v = vf.validate('TraceLog', 'TraceLog.cfg', traces, shards=8, env={'PROP': prop or ck.pid}, timeout=800)
    ck.cov["states"] += v["states"]
    ck.cov["transitions"] += v["transitions"]
    ck.traces(v["accepted"])
    ops = collections.Counter(e["op"] for t in traces for e in t)
    ck.cov["events"] = dict(collections.Counter(ck.cov.get("events", {})) + ops)
    ck.cov["events_total"] = sum(ops.values())
    ck.cov["appended_records"] = sum(max(0, e["added"]) for t in traces for e in t if e["op"] == "append")
    ck.cov["records_compared"] = sum(len(e.get("res", ())) + len(e.get("after", ())) for t in traces for e in t)
    ck.cov["cancelled_appends"] = sum(1 for t in traces for e in t if e["op"] == "append" and e["cancel"])
    ck.cov["faults_raised"] = sum(1 for t in traces for e in t if e.get("raised"))
    ck.cov["multi_chunk_logs"] = sum(1 for t in traces for e in t if e["op"] == "catalog" and len(e["chunks"]) > 1)
    for t in traces[:3]:
        ck.sample([{k: e[k] for k in e if k in ("op", "log", "logs", "lens", "added", "limit", "desc", "text", "err", "next", "maxchunk", "total", "count")}
                   for e in t[:6]])
    for r in v["rejected"]:
        ev = traces[r["trace"]][r["pos"] - 1]
        brief = {k: (ev[k] if len(json.dumps(ev[k])) < 400 else "...") for k in ev}
        ck.violation("%s: %s" % (r["why"], json.dumps(brief)),
                     dict(behaviour=behs[r["trace"]], event=ev, position=r["pos"]), key=r["why"])
