from schedcommon import schedcheck
import vf


def check(ck):
    T = vf.THOROUGH
    instr = ["pkg/api", "pkg/storage/logfs", "pkg/storage/chunkfs", "pkg/storage/cache", "golibs/container/lru"]
    schedcheck(ck, "linh", instr, [("Lin", "Lin.cfg")] + ([("Lin", "LinT.cfg")] if T else []), ("GenLin", "GenLin.cfg"), 1200 if T else 160,
               ("TraceLin", "TraceLin.cfg"), extra=60 if T else 25, single=300 if T else 60)
