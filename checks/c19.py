from schedcommon import schedcheck
import vf


def check(ck):
    T = vf.THOROUGH
    solo = vf.generate("GenLru", "GenLru.cfg", 1500 if T else 300, 3, env=dict(PROFILE="solo"), seed=vf.SEED * 31 + 5)
    specs = [("Lru", "Lru.cfg")] + ([("Lru", "LruT.cfg")] if T else [])
    schedcheck(ck, "lruh", ["golibs/container/lru", "golibs/container/iterable"], specs, ("GenLru", "GenLru.cfg"), 1500 if T else 300,
               ("TraceLru", "TraceLru.cfg"), extra=40 if T else 15, single=400 if T else 80, more=solo)
