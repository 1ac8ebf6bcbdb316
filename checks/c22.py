from seqcommon import seqcheck
import vf


def check(ck):
    T = vf.THOROUGH
    every = vf.enumerate_states("EnumErr", "EnumErr.cfg")
    seqcheck(ck, "errh", [("ErrMap", "ErrMapT.cfg" if T else "ErrMap.cfg")], [("GenErr", "GenErr.cfg", 400000 if T else 20000, 2, {})],
             ("TraceErr", "TraceErr.cfg"), extra=every)
