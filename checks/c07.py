from seqcommon import seqcheck
import vf

AB = [dict(k=[97], v=[98])]
BULK = dict(cfg=dict(cached=True), ops=[dict(op="bulk", n=1060, tags=AB), dict(op="list", w=1, toks=[], lim=5000), dict(op="page", w=1, lim=5000), dict(op="list", w=2, toks=[], lim=0),
            dict(op="read", toks=[]), dict(op="create", tags=[]), dict(op="page", w=2, lim=0), dict(op="slist", w=3, ls=list(range(1, 1061)), lim=2000),
            dict(op="page", w=3, lim=7)]
            + [dict(op="del", toks=[dict(k="id", v="tag"), dict(k="op", v="("), dict(k="str", v=[97]), dict(k="op", v=")"), dict(k="op", v="="), dict(k="str", v=[98])]),
               dict(op="list", w=1, toks=[], lim=10), dict(op="page", w=2, lim=0), dict(op="reopen"), dict(op="list", w=1, toks=[], lim=10)])


def check(ck):
    T = vf.THOROUGH
    specs = [("Catalogue", "Catalogue.cfg")] + ([("Catalogue", "CatalogueT.cfg")] if T else [])
    seqcheck(ck, "cath", specs, [("GenCat", "GenCat.cfg", 6000 if T else 700, 50, {})], ("TraceCat", "TraceCat.cfg"), extra=[BULK])
