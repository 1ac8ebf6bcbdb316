from seqcommon import seqcheck
import vf


def check(ck):
    T = vf.THOROUGH
    specs = [("MCQL", "MCQL.cfg")] + ([("MCQL", "MCQLT.cfg")] if T else [])
    seqcheck(ck, "cath", specs, [("GenCat", "GenCat.cfg", 6000 if T else 700, 50, {})], ("TraceCat", "TraceCat.cfg"))
