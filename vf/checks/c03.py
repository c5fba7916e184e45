"""C03: a used-up key refuses for ever and is wiped."""
from ..base import THOROUGH
from ..common import lib, check_traces, rng
from ..params import names
from ._index import signer_models, beyond, jobs_for, field, fieldbytes, CUSTOM

LEVEL = "model_checking"


def run(rep):
    R = rng("c03")
    # refusals, and the steps into them
    ends = lambda h, ib: [(1 << h) - 3, (1 << h) - 1] if h > 2 else []
    G = jobs_for(R, True, lambda h, ib: beyond(h, ib, R) + ends(h, ib), 7)
    G += jobs_for(R, False, lambda h, ib: beyond(h, ib, R), 5)
    # the last signatures of the recomputing signer are real ones: verified
    for nm, mt, fn, n, h, d in names():
        th, ib = h // d, fieldbytes(mt, h)
        if th <= (10 if n == 24 and fn == 0 else 5):
            G.append((lib(False), [dict(id="ref end " + nm, params=nm, seed=R.getrandbits(40), lens=[3, 0],
                                        start=field((1 << h) - 3, ib), count=6)]))
    for c in CUSTOM:
        fn, n, w, h, d, k = c
        ib = fieldbytes(d > 1, h)
        G.append((lib(False), [dict(id="ref end %s" % (c,), params=list(c), seed=R.getrandbits(40), lens=[3, 0],
                                    start=field((1 << h) - 3, ib), count=6)]))
    # whole lives
    H = []
    whole = [[0, 24, 4, 8, 4, 0], [0, 24, 4, 8, 2, 0], [0, 24, 4, 6, 3, 0], [0, 24, 4, 7, 1, 0], [0, 24, 4, 8, 1, 2],
             [0, 24, 256, 8, 4, 0], [2, 64, 16, 4, 2, 0], [0, 24, 4, 12, 3, 0], [0, 24, 4, 9, 3, 1], [0, 24, 4, 4, 1, 0],
             [0, 24, 4, 2, 1, 0], [0, 32, 4, 8, 2, 2]]
    H.append((lib(True), [dict(id="fast life 16/8", params=[0, 24, 4, 16, 8, 0], seed=R.getrandbits(40), count="all",
                               extra=5, lens=[0], verify=1)]))
    for c in whole:
        H.append((lib(True), [dict(id="fast life %s" % c, params=c, seed=R.getrandbits(40), count="all", extra=5, lens=[0, 40])]))
        if c[3] <= 8 and c[5] == 0:
            H.append((lib(False), [dict(id="ref life %s" % c, params=c, seed=R.getrandbits(40), count="all", extra=5, lens=[0, 40])]))
    for nm in ("XMSS-SHA2_10_256", "XMSS-SHA2_10_192"):
        H.append((lib(True), [dict(id="fast life " + nm, params=nm, seed=R.getrandbits(40), count="all", extra=5, lens=[0])]))
    if THOROUGH:
        H.insert(0, (lib(True), [dict(id="fast life XMSSMT-SHA2_20/4_192", params="XMSSMT-SHA2_20/4_192",
                                      seed=R.getrandbits(40), count="all", extra=5, lens=[0])]))
        for nm in ("XMSS-SHAKE_10_512", "XMSS-SHAKE256_10_192", "XMSS-SHA2_10_512", "XMSS-SHAKE_10_256", "XMSS-SHAKE256_10_256"):
            H.append((lib(True), [dict(id="fast life " + nm, params=nm, seed=R.getrandbits(40), count="all", extra=5, lens=[0])]))
    check_traces(rep, "TraceKey", H + G, timeout=14000 if THOROUGH else 800, name="end", tlc_kw={"mem": "12g"})
    if not rep.violations:
        signer_models(rep)
    rep.cov["rule"] = "whole lives, last signatures, and out-of-range stored indices (every bit above the height), all parameter sets"
    rep.cov["exhaustive"] = False
    rep.assumptions += ["keys of sets whose trees take minutes to build are fabricated: regular fields and a blank signer state"]
