"""C02: no index is ever used twice and indices advance one by one."""
from ..base import THOROUGH
from ..common import proved, lib, check_traces, rng
from ._index import signer_models, carries, jobs_for

LEVEL = "model_checking"


def run(rep):
    R = rng("c02")
    st = lambda h, ib: carries(h, ib, R, 20 if THOROUGH else 3)
    G = jobs_for(R, True, st, 4) + jobs_for(R, False, st, 3)
    # whole and long lives, with calls repeated on copies of the key in between
    H = []
    for c in ([0, 24, 4, 8, 2, 0], [0, 24, 4, 8, 4, 0], [0, 24, 4, 10, 1, 0], [0, 24, 4, 12, 3, 0], [0, 24, 256, 6, 3, 0]):
        H.append((lib(True), [dict(id="fast life %s" % c, params=c, seed=R.getrandbits(40), count="all", extra=4,
                                   lens=[0, 40])]))
    for c in ([0, 24, 4, 8, 2, 0], [0, 24, 4, 8, 4, 0], [0, 24, 4, 6, 1, 0]):
        H.append((lib(False), [dict(id="ref life %s" % c, params=c, seed=R.getrandbits(40), count="all", extra=4,
                                    lens=[0, 40])]))
    H.append((lib(True), [dict(id="fast life 20/10", params=[0, 24, 4, 20, 10, 0], seed=R.getrandbits(40),
                               count="all" if THOROUGH else 9000, verify=False, lens=[0])]))
    check_traces(rep, "TraceKey", H + G, timeout=7000 if THOROUGH else 600, name="index")
    if not rep.violations:
        signer_models(rep)
    proved(rep, "OnceProof", ("AbstractSigner",))
    rep.cov["rule"] = "every registered parameter set and odd widths of the index field; starts at every carry, the end and random places"
    rep.cov["exhaustive"] = False
    rep.assumptions += ["keys of sets whose trees take minutes to build are fabricated: regular fields and a blank signer state"]
