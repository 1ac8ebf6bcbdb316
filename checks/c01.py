from logcommon import logcheck
import vf


def check(ck):
    k = 20 if vf.THOROUGH else 2
    profiles = dict(basic=240, multi=60)
    logcheck(ck, {p: n * k for p, n in profiles.items()}, ["MCLog_append%s.cfg" % ("T" if vf.THOROUGH else "")], noise=40 * k)
