from schedcommon import schedcheck
import vf


def check(ck):
    T = vf.THOROUGH
    pk = ["golibs/kvs/distlock", "golibs/timeout", "golibs/kvs/inmem"]
    schedcheck(ck, "dlockh", pk, [("Dlock", "Dlock.cfg")] + ([("Dlock", "DlockT.cfg")] if T else []),
               ("GenDlock", "GenDlock.cfg"), 800 if T else 400, ("TraceDlock", "TraceDlock.cfg"),
               extra=40 if T else 10, single=0, build=dict(vtime=pk))
