from schedcommon import schedcheck
import vf


def check(ck):
    T = vf.THOROUGH
    specs = [("Releasable", "Releasable.cfg"), ("Releasable", "ReleasableL.cfg")]
    if T:
        specs.append(("Releasable", "ReleasableT.cfg"))
    schedcheck(ck, "relh", ["golibs/container/lru", "golibs/container/iterable"], specs, ("GenRel", "GenRel.cfg"),
               1500 if T else 400, ("TraceRel", "TraceRel.cfg"), extra=200 if T else 60, single=600 if T else 100)
