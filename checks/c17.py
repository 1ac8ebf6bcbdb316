from seqcommon import seqcheck
import vf


def check(ck):
    T = vf.THOROUGH
    specs = [("Blocks", "Blocks.cfg")] + ([("Blocks", "BlocksT.cfg")] if T else [])
    seqcheck(ck, "blkh", specs, [("GenBlk", "GenBlk.cfg", 4000 if T else 200, 45, {})], ("TraceBlk", "TraceBlk.cfg"), single=True,
             instr=["golibs/container/bytes"], env=dict(EXTRA="60" if T else "15", SINGLE="300" if T else "20"))
