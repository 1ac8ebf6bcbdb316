from schedcommon import schedcheck
import vf


def check(ck):
    T = vf.THOROUGH
    solo = vf.generate("GenCache", "GenCache.cfg", 1500 if T else 300, 3, env=dict(PROFILE="solo"), seed=vf.SEED * 31 + 5)
    specs = [("MetaCache", "MetaCache.cfg")] + ([("MetaCache", "MetaCacheT.cfg")] if T else [])
    schedcheck(ck, "cacheh", ["pkg/storage/cache", "golibs/container/lru", "golibs/container/iterable"], specs, ("GenCache", "GenCache.cfg"),
               1500 if T else 300, ("TraceCache", "TraceCache.cfg"), extra=40 if T else 15, single=400 if T else 80, more=solo)
