from schedcommon import schedcheck
import vf


def check(ck):
    T = vf.THOROUGH
    schedcheck(ck, "timeh", ["golibs/timeout"], [("Timeout", "Timeout.cfg"), ("Timeout", "TimeoutL.cfg")] + ([("Timeout", "TimeoutT.cfg")] if T else []),
               ("GenTimeout", "GenTimeout.cfg"), 1500 if T else 320, ("TraceTimeout", "TraceTimeout.cfg"),
               extra=60 if T else 24, single=0, build=dict(vtime=["golibs/timeout"]))
