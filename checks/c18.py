from seqcommon import seqcheck
import vf


def check(ck):
    T = vf.THOROUGH
    specs = [("IterMap", "IterMap.cfg")] + ([("IterMap", "IterMapT.cfg")] if T else [])
    seqcheck(ck, "maph", specs, [("GenMap", "GenMap.cfg", 40000 if T else 5000, 65, {})], ("TraceMap", "TraceMap.cfg"))
