from logcommon import logcheck
from seqcommon import seqcheck
import vf


def check(ck):
    T = vf.THOROUGH
    k = 12 if T else 1
    for way, nc, nl in (("rest", 180 * k, 60 * k), ("grpc", 90 * k, 30 * k)):
        first = way == "rest"
        seqcheck(ck, "cath", [("Catalogue", "Catalogue.cfg")] if first else [], [("GenCat", "GenCat.cfg", nc, 50, dict(WAY=way))], ("TraceCat", "TraceCat.cfg"),
                 env=dict(WAY=way))
        logcheck(ck, {p: nl for p in ("basic", "page", "cond", "count", "multi")}, ["MCLog_page%s.cfg" % ("T" if T else "")] if first else [],
                 prop="ALL", env=dict(WAY=way))
