from logcommon import logcheck
import vf


def check(ck):
    k = 20 if vf.THOROUGH else 2
    profiles = dict(page=240)
    logcheck(ck, {p: n * k for p, n in profiles.items()}, ["MCLog_page%s.cfg" % ("T" if vf.THOROUGH else "")])
