from seqcommon import seqcheck
import vf


def check(ck):
    T = vf.THOROUGH
    specs = [("Replication", "Replication.cfg")] + ([("Replication", "ReplicationT.cfg")] if T else [])
    seqcheck(ck, "storeh", specs, [("GenRepl", "GenRepl.cfg", 6000 if T else 1200, 30, {})], ("TraceStore", "TraceStore.cfg"),
             env=dict(SNAPS="0"), single=True)
