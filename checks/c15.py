from schedcommon import schedcheck
import vf


def check(ck):
    T = vf.THOROUGH
    solo = vf.generate("GenKvs", "GenKvs.cfg", 12000 if T else 1600, 3, env=dict(PROFILE="solo"), seed=vf.SEED * 31 + 5)
    pk = ["golibs/kvs/inmem", "golibs/kvs/redis"]
    specs = [("Kvs", "Kvs.cfg"), ("Kvs", "KvsR.cfg")] + ([("Kvs", "KvsT.cfg"), ("Kvs", "KvsRT.cfg")] if T else [])
    schedcheck(ck, "kvsh", pk, specs, ("GenKvs", "GenKvs.cfg", dict(PROFILE="many")), 1500 if T else 300, ("TraceKvs", "TraceKvs.cfg"),
               extra=40 if T else 14, single=0, more=solo, build=dict(vtime=pk))
