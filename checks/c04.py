from logcommon import logcheck
import vf

MANY = [dict(cfg=dict(newsize=4096, maxchunk=8192, maxgrow=4096, maxrecs=1000, maxbunch=100000, maxlocks=2000, maxopened=100,
                      cached=False, nlogs=1), ops=[dict(op="toomany", n=n, sel=s, kind="count", lens=[], logs=[], q=None)])
        for n, s in ((1000, "ids"), (1001, "ids"), (1000, "cond"), (1001, "cond"))]


def check(ck):
    k = 20 if vf.THOROUGH else 2
    profiles = dict(count=180, fault=120)
    logcheck(ck, {p: n * k for p, n in profiles.items()}, ["MCLog_count%s.cfg" % ("T" if vf.THOROUGH else "")], extra=MANY)
