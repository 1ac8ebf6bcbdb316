from seqcommon import seqcheck
import vf


def check(ck):
    T = vf.THOROUGH
    seqcheck(ck, "confh", [("MCConfig", "MCConfig.cfg")], [("GenConf", "GenConf.cfg", 20000 if T else 2500, 10, {})], ("TraceConf", "TraceConf.cfg"), brief=900)
