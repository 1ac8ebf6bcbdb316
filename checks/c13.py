from seqcommon import seqcheck
import vf

INSTR = ['pkg/storage/logfs', 'pkg/storage/chunkfs', 'pkg/storage/buntdb', 'pkg/storage/cache', 'pkg/api', 'golibs/files']


def check(ck):
    T = vf.THOROUGH
    specs = [("Crash", "Crash.cfg")] + ([("Crash", "CrashT.cfg")] if T else [])
    ts = seqcheck(ck, "storeh", specs, [("GenRepl", "GenRepl.cfg", 1500 if T else 70, 16, {"PROFILE": "crash"})], ("TraceStore", "TraceStore.cfg"),
                  instr=INSTR, env=dict(SNAPS="200" if T else "25"), single=True)
    ck.cov["crash_points"] = sum(1 for t in ts or () for e in t if e.get("at"))
