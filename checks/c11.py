from schedcommon import schedcheck
import vf


def check(ck):
    T = vf.THOROUGH
    specs = [("Accessor", "Accessor.cfg"), ("Accessor", "AccessorL.cfg")]
    if T:
        specs += [("Accessor", "AccessorT.cfg"), ("Accessor", "AccessorLT.cfg")]
    instr = ["pkg/storage/chunkfs", "golibs/container/lru", "golibs/container/iterable"]
    # the access control itself, through an export file added to its package; without it (its unexported methods may
    # be renamed) everything goes through Provider and Replicator
    direct = dict(tags="vdirect", inject=[("pkg/storage/chunkfs", "chunkfs_export.go")])
    try:
        vf.gobuild("acch", instrument=instr, **direct)
    except vf.ToolError:
        vf.log("the access control cannot be called directly, going through Provider and Replicator")
        direct = None
    if direct:
        schedcheck(ck, "acch", instr, specs, ("GenAcc", "GenAcc.cfg", (("MODE", "direct"),)), 1500 if T else 300,
                   ("TraceAcc", "TraceAcc.cfg"), extra=200 if T else 60, single=600 if T else 80, build=direct)
    ck.cov["direct"] = bool(direct)
    schedcheck(ck, "acch", instr, [] if direct else specs, ("GenAcc", "GenAcc.cfg", (("MODE", "stack"),)), 800 if T else 160,
               ("TraceAcc", "TraceAcc.cfg"), extra=120 if T else 40, single=300 if T else 60)
