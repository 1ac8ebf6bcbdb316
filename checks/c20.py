from seqcommon import seqcheck
import vf

INSTR = ['pkg/storage/chunkfs']


def check(ck):
    T = vf.THOROUGH
    specs = [("Scanner", "Scanner.cfg"), ("Scanner", "ScannerL.cfg")] + ([("Scanner", "ScannerT.cfg")] if T else [])
    seqcheck(ck, "scanh", specs, [("GenScan", "GenScan.cfg", 4000 if T else 400, 40, {})], ("TraceScan", "TraceScan.cfg"),
             instr=INSTR, build=dict(vtime=INSTR))
